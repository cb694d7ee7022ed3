let k = 0;
const v4 = () => "uuid-" + ++k;
module.exports = Object.assign(() => v4(), { v4, v1: v4 });
