// Stands for the wasm module: records what it is called with.
export default function init() { return globalThis.__wasm.init(); }
export function run(name, input, options) { return globalThis.__wasm.run(name, input, options); }
