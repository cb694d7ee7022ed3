// The notebook UI driven as a user drives it: pointer events and controls, read back from the document.
module.exports = (b) => {
  const { React, d3, nbui } = b;
  const { El } = require("./dom.js");
  const units = (root, f) => React.findAll(root.__root, f);
  const isHost = (t) => (u) => u.v.type === t;
  const { cls, numbers, box, plain, labels: netLabels, item, sphere: outline, stale: staleIn } = require("./svg.js")(d3);

  // What a drawn stereonet shows, given the rotation it should have
  function net(svg, rot, precision) {
    const bx = box(numbers(plain(outline(svg).getAttribute("d"))));
    const R = (bx[1] - bx[0]) / 2;
    const size = Number(svg.getAttribute("width"));
    const proj = d3.geoAzimuthalEqualArea().clipAngle(90).precision(precision).rotate(rot).scale(R / Math.SQRT2).translate([size / 2, size / 2]);
    const path = d3.geoPath().projection(proj).pointRadius(2);
    const items = (sel) => {
      const c = svg.querySelectorAll(sel);
      if (c.length > 1) return { several: c.length };
      return c.length ? c[0].childNodes.map(item) : null;
    };
    return { radius: R, centre: [(bx[0] + bx[1]) / 2, (bx[2] + bx[3]) / 2], size, stale: staleIn(svg, path), planes: items("g.planes"), poles: items("g.poles"), hovered: items("g.hovered"), labels: netLabels(svg, proj, size) };
  }

  function look(root, rot, precision) {
    const li = units(root, isHost("li")).filter((u) => u.v.key != null && u.v.props.onMouseOver);
    const button = units(root, isHost("bp-Button")).map((u) => ({ text: React.textOf(u), disabled: !!u.v.props.disabled }));
    const sw = units(root, isHost("bp-Switch")).map((u) => ({ label: u.v.props.label, checked: !!u.v.props.checked }));
    const panel = units(root, (u) => typeof u.v.type === "string" && u.el && cls(u.el).includes("plane-desc"));
    const copy = units(root, isHost("copy-to-clipboard"));
    return { list: li.map((u) => ({ text: React.textOf(u), cls: String(u.v.props.className || "").split(/\s+/).filter(Boolean), style: u.v.props.style || {} })), button, sw, panel: panel.map((u) => React.textOf(u)), copy: copy.map((u) => u.v.props.text),
      net: net(root.querySelector("svg.stereonet"), rot, precision) };
  }

  function session(uis, extra) {
    const doc = React.makeDocument();
    global.window = doc.defaultView;
    global.document = doc;
    return { doc, roots: uis.map((u) => { const root = doc.createElement("div"); const inst = u.props ? b.ReactDOM.render(React.createElement(nbui.AttitudeUI, { attitudes: u.attitudes, ...u.props }), root) : nbui.createUI(root, u.attitudes); return { root, inst, u }; }) };
  }

  return {
    // uis: [{attitudes, props}], steps: [{ui, op, ...}] with rot: expected rotations of all UIs afterwards
    history: ({ uis, steps, rots }) => {
      const before = uis.map((u) => JSON.stringify(u.attitudes));
      const S = session(uis);
      const seen = [S.roots.map((r, i) => look(r.root, rots[0][i], (r.u.props || {}).stereonetPrecision || 0.1))];
      const did = [];
      steps.forEach((s, k) => {
        const { root, inst, u } = S.roots[s.ui];
        const press = (label) => { const x = units(root, isHost("bp-Button")).find((v) => React.textOf(v) === label); if (!x) throw new Error("no button " + label); if (!x.v.props.disabled) x.v.props.onClick({}); };
        const flip = (label) => { const x = units(root, isHost("bp-Switch")).find((v) => v.v.props.label === label); if (!x) throw new Error("no switch " + label); x.v.props.onChange({}); };
        const li = () => units(root, isHost("li")).filter((v) => v.v.key != null && v.v.props.onMouseOver);
        const svg = root.querySelector("svg.stereonet");
        let out = null;
        if (s.op === "item_hover") { const l = li(); if (l.length) { const x = l[s.i % l.length]; out = React.textOf(x); x.v.props.onMouseOver({}); } }
        else if (s.op === "item_click") { const l = li(); if (l.length) { const x = l[s.i % l.length]; out = React.textOf(x); x.v.props.onClick({}); } }
        else if (s.op === "net_hover") { const p = root.querySelectorAll("path.error"); if (p.length) { const x = p[s.i % p.length]; out = d3.select(x.parentNode).datum().uid; x.fire("mouseenter"); } }
        else if (s.op === "leave") hosts(root).fire("mouseleave");
        else if (s.op === "enter") hosts(root).fire("mouseenter");
        else if (s.op === "groups") flip("Show groups");
        else if (s.op === "zoom") { const x = units(root, isHost("bp-Button")).map((v) => React.textOf(v)).find((t) => t === "Show only selection" || t === "Show all data"); press(x); }
        else if (s.op === "clear") press("Clear selection");
        else if (s.op === "planes") flip("Planes");
        else if (s.op === "poles") flip("Poles");
        else if (s.op === "vertical") press("Vertical");
        else if (s.op === "select") { if (inst && typeof inst.updateSelection === "function") { out = s.uids; inst.updateSelection(s.uids.map((x) => u.attitudes.find((a) => a.uid === x))); } }
        else if (s.op === "down") svg.fire("mousedown", { pageX: s.x, pageY: s.y });
        else if (s.op === "move") window.fire("mousemove", { pageX: s.x, pageY: s.y });
        else if (s.op === "up") window.fire("mouseup", { pageX: s.x, pageY: s.y });
        else throw new Error("step " + s.op);
        did.push(out);
        seen.push(S.roots.map((r, i) => look(r.root, rots[k + 1][i], (r.u.props || {}).stereonetPrecision || 0.1)));
      });
      return { seen, did, unchanged: uis.map((u, i) => JSON.stringify(u.attitudes) === before[i]) };
    },
    // The cross-section: mounted, then updated with new azimuths and hovered measurements
    side: ({ data, updates }) => {
      const doc = React.makeDocument();
      global.window = doc.defaultView; global.document = doc;
      const root = doc.createElement("div");
      const hovers = [];
      const out = [];
      for (const u of updates) {
        const hovered = u.hovered == null ? null : data.filter((d) => u.hovered.includes(d.uid));
        b.ReactDOM.render(React.createElement(b.sideview.SideViewComponent, { data, azimuth: u.azimuth, hovered, onHover: (d) => hovers.push(d.uid) }), root);
        const svg = root.childNodes[0];
        const tick = (c) => svg.querySelectorAll("g").filter((g) => cls(g).includes(c) && cls(g).includes("axis")).map((a) => a.querySelectorAll("g.tick").map((t) => [Number(t.textContent.replace("\u2212", "-")), numbers(t.getAttribute("transform"))]))[0];
        const bands = (c) => svg.querySelectorAll("g." + c).flatMap((g) => g.querySelectorAll("g.error-hyperbola")).map((g) => ({ uid: (d3.select(g).datum().data || {}).uid, t: numbers(g.getAttribute("transform")), grouped: cls(g).includes("in-group") }));
        out.push({ size: [Number(svg.getAttribute("width")), Number(svg.getAttribute("height"))], shift: numbers(svg.childNodes[0].getAttribute("transform")), x: tick("x"), y: tick("y"), errors: bands("errors"), grouped: bands("errors-grouped"),
          traces: svg.querySelectorAll("path.trace").map((p) => { p.fire("mouseover"); return { uid: d3.select(p).datum().data.uid, stroke: p.getAttribute("stroke"), t: numbers(p.getAttribute("transform")) }; }) });
      }
      return { out, hovers };
    },
  };
  function hosts(root) { return root.childNodes[0]; }
};
