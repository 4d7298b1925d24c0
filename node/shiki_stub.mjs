const make = (o) => globalThis.__vf.highlighter(o);
export const createHighlighter = make, getHighlighter = make, getSingletonHighlighter = make, createHighlighterCore = make;
export const codeToHtml = async (code, o) => (await make({})).codeToHtml(code, o);
