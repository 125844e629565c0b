'use strict';
// Short hands for the demonstrations.
const fs = require('fs');
const path = require('path');
const native = {exports: {}};
process.dlopen(native, process.env.ADDON);
const module_ = {exports: {}};
new Function('require', 'module', 'exports', fs.readFileSync(path.join(process.env.CARMEN_REPO, 'index.js'), 'utf8'))(
    () => native.exports, module_, module_.exports);
let n = 0;
module.exports = {
    carmen: module_.exports,
    assert: require('assert'),
    // a new directory for a store, inside the directory demo.sh made
    dir() { const d = path.join(process.env.DEMO_DIR, 's' + n++); fs.mkdirSync(d); return d; },
    row(id, x, y, relev, score, hash) { return {id, x, y, relev, score, source_phrase_hash: hash}; },
};
