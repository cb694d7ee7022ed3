module.exports = {};
