// Every component is a host element that carries its props and shows its children (and panel or content).
const { createElement } = require("./react.js");
const comp = (name) => Object.assign((p) => { const { children, panel, content, text, ...rest } = p; return createElement("bp-" + name, { ...rest, text }, children, panel, content, text); }, { displayName: name });
const out = { FocusStyleManager: { onlyShowFocusOnTabs() {} }, Intent: {}, Classes: {}, Position: {} };
for (const n of ["Alert", "Alignment", "AnchorButton", "Button", "ButtonGroup", "Callout", "Card", "Checkbox", "Collapse", "ControlGroup", "Dialog", "Divider", "Drawer", "EditableText", "FormGroup", "H1", "H2", "H3", "H4",
  "HTMLSelect", "Icon", "InputGroup", "Label", "Menu", "MenuItem", "Navbar", "NonIdealState", "NumericInput", "Overlay", "Popover", "Popover2", "Radio", "RadioGroup", "RangeSlider", "Slider", "Spinner", "Switch", "Tab", "Tabs", "Tag", "Text", "TextArea", "Tooltip", "Tooltip2"]) out[n] = comp(n);
out.Tabs.Expander = comp("TabsExpander");
module.exports = out;
