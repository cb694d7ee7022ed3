const R = require("./react.js");
module.exports = { render: R.render, findDOMNode: R.findDOMNode };
module.exports.default = module.exports;
