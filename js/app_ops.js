// The web application driven through its sheet, buttons and inputs.
module.exports = (b) => {
  const { React, ReactDOM, d3, store, App } = b;
  const units = (root, f) => React.findAll(root.__root, f);
  const isHost = (t) => (u) => u.v.type === t;
  const cls = (el) => (el.getAttribute("class") || "").split(/\s+/).filter(Boolean);
  const numbers = (d) => ((d || "").match(/-?\d+(\.\d+)?(e-?\d+)?/g) || []).map(Number);
  const dir = ([lon, lat]) => { const r = Math.PI / 180; return [Math.cos(lat * r) * Math.sin(lon * r), -Math.cos(lat * r) * Math.cos(lon * r), Math.sin(lat * r)]; };
  const KEYS = ["strike", "dip", "rake", "maxError", "minError", "color"];
  function shown(svg) {
    const sphere = svg.querySelectorAll("path").find((p) => (d3.select(p).datum() || {}).type === "Sphere");
    const n = numbers(sphere.getAttribute("d")), xs = n.filter((_, i) => i % 2 === 0);
    return { svg: [Number(svg.getAttribute("width")), Number(svg.getAttribute("height"))], radius: (Math.max(...xs) - Math.min(...xs)) / 2,
      items: svg.querySelectorAll("g").filter((g) => cls(g).includes("normal") || cls(g).includes("plane")).map((g) => {
        const d = d3.select(g).datum(), e = g.querySelector("path.error");
        const f = e ? d3.select(e).datum() : null;
        const c = f && f.geometry ? (f.geometry.type === "MultiPolygon" ? d3.geoCentroid({ type: "Polygon", coordinates: f.geometry.coordinates[0] }) : null) : null;
        return { kind: cls(g).includes("normal") ? "normal" : "plane", data: Object.fromEntries(Object.keys(d).map((k) => [k, d[k]])), drawn: !!e, fill: e && e.getAttribute("fill"), stroke: e && e.getAttribute("stroke"), area: f ? d3.geoArea(f) : null, pole: c ? dir(c) : null, path: e && (e.getAttribute("d") || "").length };
      }) };
  }
  function look(root) {
    const tds = (tr) => React.findAll(tr, (u) => u.v.type === "td");
    const sheet = units(root, isHost("data-sheet"));
    const rows = React.findAll(sheet[0], (u) => u.v.type === "tr" && React.findAll(u, (k) => k.el && cls(k.el).includes("header")).length === 0);
    const head = React.findAll(sheet[0], (u) => u.v.type === "thead");
    return { sheets: sheet.length, head: head.map((u) => tds(u).map(React.textOf)), rows: rows.map((tr) => tds(tr).map((td) => ({ text: React.textOf(td), status: td.v.props["data-status"] ?? null }))),
      stored: store.values["orientation-data"].map((r) => r.map((c) => c.value ?? null)), buttons: units(root, isHost("bp-Button")).map(React.textOf), clip: store.values["clipAngle"],
      nets: root.querySelectorAll("svg").map(shown) };
  }
  return {
    history: ({ steps, stored }) => {
      const doc = React.makeDocument();
      global.window = doc.defaultView; global.document = doc;
      for (const k of Object.keys(store.values)) delete store.values[k];
      if (stored) store.values["orientation-data"] = stored.map((r) => r.map((value) => ({ value })));
      const root = doc.createElement("div");
      ReactDOM.render(React.createElement(App), root);
      const seen = [look(root)];
      const intact = [];
      for (const s of steps) {
        const press = (label) => { const x = units(root, isHost("bp-Button")).find((v) => React.textOf(v) === label); if (!x) throw new Error("no button " + label); x.v.props.onClick({}); };
        const before = store.values["orientation-data"], text = JSON.stringify(before);
        if (s.op === "edit") {
          const p = units(root, isHost("data-sheet"))[0].v.props;
          p.onCellsChanged(s.changes.map(([row, col, value]) => ({ cell: p.data[row][col], row, col, value })));
        } else if (s.op === "more") press("Add more rows");
        else if (s.op === "reset") press("Reset data");
        else if (s.op === "clip") units(root, isHost("bp-NumericInput"))[0].v.props.onValueChange(s.value);
        else if (s.op === "planes" || s.op === "poles") units(root, isHost("bp-Switch")).find((v) => v.v.props.label.toLowerCase() === s.op).v.props.onChange({});
        else if (s.op === "point") { const e = root.querySelectorAll("path.error"); if (e.length) { const x = e[s.i % e.length]; for (const t of ["mouseenter", "mouseover"]) { x.fire(t); x.parentNode.fire(t); } } }
        else throw new Error("step " + s.op);
        intact.push(JSON.stringify(before) === text);
        seen.push(look(root));
      }
      return { seen, intact };
    },
    clipValid: ({ values }) => { const f = store.validators["clipAngle"]; return f ? values.map((v) => !!f(v)) : null; },
  };
};
