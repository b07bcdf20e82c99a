"use strict";
globalThis._vf = "";
globalThis._vh = (type, props, ...children) => ({ type, props: props || {}, children });
exports.defineComponent = (o) => o;
