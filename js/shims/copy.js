const { createElement } = require("./react.js");
module.exports = { CopyToClipboard: (p) => createElement("copy-to-clipboard", p) };
