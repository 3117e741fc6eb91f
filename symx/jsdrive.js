'use strict';
const readline = require('readline');
const acorn = require(process.env.NODE_PATH + '/acorn');
function clean(n) {
    if (Array.isArray(n)) return n.map(clean);
    if (n && typeof n === 'object') {
        if (n instanceof RegExp) return null;
        const o = {};
        for (const k of Object.keys(n)) if (k !== 'start' && k !== 'end') o[k] = clean(n[k]);
        return o;
    }
    return n;
}
function run(msg) {
    const mods = [];
    const define = (deps, f) => { mods.push([deps, f]); };
    global.__mods = mods;
    const before = new Set(Object.getOwnPropertyNames(global));
    try {
        for (const s of msg.sources) (new Function('define', 'mods', s))(define, mods);
        const r = (new Function('define', 'mods', 'return (' + msg.scenario + ');'))(define, mods).apply(undefined, msg.args);
        return {result: r === undefined ? null : r};
    } catch (e) {
        return {error: String(e && e.name || e)};
    } finally {
        for (const k of Object.getOwnPropertyNames(global)) if (!before.has(k)) delete global[k];
    }
}
readline.createInterface({input: process.stdin}).on('line', line => {
    const msg = JSON.parse(line);
    let r;
    if (msg.op === 'parse') {
        try {
            r = {tree: clean(acorn.parse(msg.src, {ecmaVersion: 2022, sourceType: 'script'}))};
        } catch (e) {
            r = {error: String(e)};
        }
    } else r = run(msg);
    process.stdout.write(JSON.stringify(r) + '\n');
});
