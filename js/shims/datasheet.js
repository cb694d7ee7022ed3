const { Component, createElement } = require("./react.js");
// The grid: shows its sheet through the given renderers, as the real one does.
class ReactDataSheet extends Component {
  render() {
    const p = this.props;
    const rows = p.data.map((row, i) => createElement(p.rowRenderer || "tr", { key: "r" + i, row: i, cells: row },
      row.map((cell, j) => createElement("td", { key: "c" + j, ...(p.attributesRenderer ? p.attributesRenderer(cell, i, j) : {}), className: "cell" }, p.valueRenderer(cell, i, j)))));
    return createElement("data-sheet", { ...p }, createElement(p.sheetRenderer || "table", { data: p.data, className: "data-grid" }, rows));
  }
}
class DataEditor extends Component { render() { return createElement("data-editor", this.props); } }
ReactDataSheet.DataEditor = DataEditor;
module.exports = { default: ReactDataSheet, DataEditor, __esModule: true };
