"use strict";
exports.useLocale = () => ({ t: (s) => s });
