// How the user's text is cut into symbols. Some browsers have no Intl.Segmenter;
// it is taken away before the front end is loaded.
const real = new Intl.Segmenter("en", { granularity: "grapheme" });
export const without = process.env.PAGE_WITHOUT_SEGMENTER === "1";
if (without) Intl.Segmenter = undefined;
export const graphemes = (s) => (without ? [...s] : Array.from(real.segment(s), (x) => x.segment));
