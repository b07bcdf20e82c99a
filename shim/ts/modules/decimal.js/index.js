"use strict";
Object.defineProperty(exports, "__esModule", { value: true });
// value = sign * digits * 10^exp, or NaN or an infinity.
class Decimal {
    constructor(n) {
        if (n instanceof Decimal) {
            Object.assign(this, { m: n.m, e: n.e, s: n.s, k: n.k });
            return Object.freeze(this);
        }
        if (typeof n === "number") {
            n = Object.is(n, -0) ? "-0" : String(n);
        } else if (typeof n !== "string") {
            throw Error("[DecimalError] Invalid argument: " + n);
        }
        const t = n.replace(/(\d)_(?=\d)/g, "$1");
        this.k = "";
        this.s = 1;
        this.m = 0n;
        this.e = 0;
        if (t === "NaN") this.k = "NaN";
        else if (/^[-+]?Infinity$/.test(t)) { this.k = "Infinity"; this.s = t[0] === "-" ? -1 : 1; }
        else {
            const x = /^([-+]?)(\d+\.?\d*|\.\d+)(?:e([-+]?\d+))?$/i.exec(t);
            if (!x) throw Error("[DecimalError] Invalid argument: " + n);
            const [i, f] = (x[2] + ".").split(".");
            this.s = x[1] === "-" ? -1 : 1;
            this.m = BigInt((i || "0") + f);
            this.e = Number(x[3] || 0) - f.length;
            while (this.m !== 0n && this.m % 10n === 0n) { this.m /= 10n; this.e++; }
            if (this.m === 0n) this.e = 0;
        }
        return Object.freeze(this);
    }
    _plain(exp) {
        let d = this.m.toString();
        const e = exp;
        if (e >= 0) return d + "0".repeat(e);
        d = d.padStart(1 - e, "0");
        return d.slice(0, d.length + e) + "." + d.slice(d.length + e);
    }
    toString() {
        if (this.k === "NaN") return "NaN";
        const sign = this.s < 0 && (this.k || this.m !== 0n) ? "-" : "";
        if (this.k) return sign + "Infinity";
        if (this.m === 0n) return "0";
        const d = this.m.toString();
        const p = d.length - 1 + this.e; // exponent of the first digit
        if (p <= -7 || p >= 21) {
            return sign + d[0] + (d.length > 1 ? "." + d.slice(1) : "") + "e" + (p < 0 ? "-" : "+") + Math.abs(p);
        }
        return sign + this._plain(this.e);
    }
    toJSON() { return this.toString(); }
    valueOf() { return this.toString(); }
    toNumber() { return Number(this.toString()); }
    toFixed(n) {
        if (this.k) return this.toString();
        if (n === undefined) return (this.s < 0 ? "-" : "") + this._plain(this.e);
        let m = this.m, e = this.e;
        if (e > -n) { m *= 10n ** BigInt(e + n); }
        else if (e < -n) {
            const q = 10n ** BigInt(-n - e);
            m = (m + q / 2n) / q;
        }
        let d = m.toString().padStart(n + 1, "0");
        return (this.s < 0 && m !== 0n ? "-" : "") + (n === 0 ? d : d.slice(0, d.length - n) + "." + d.slice(d.length - n));
    }
    isNaN() { return this.k === "NaN"; }
    isFinite() { return this.k === ""; }
    isInteger() { return this.k === "" && this.e >= 0; }
    isInt() { return this.isInteger(); }
    comparedTo(o) {
        o = new Decimal(o);
        if (this.k === "NaN" || o.k === "NaN") return NaN;
        if (this.k || o.k) {
            const a = this.k ? this.s : 0, b = o.k ? o.s : 0;
            return a < b ? -1 : a > b ? 1 : 0;
        }
        const e = Math.min(this.e, o.e);
        const a = BigInt(this.s) * this.m * 10n ** BigInt(this.e - e), b = BigInt(o.s) * o.m * 10n ** BigInt(o.e - e);
        return a < b ? -1 : a > b ? 1 : 0;
    }
    cmp(o) { return this.comparedTo(o); }
    equals(o) { return this.comparedTo(o) === 0; }
    eq(o) { return this.equals(o); }
    lessThan(o) { return this.comparedTo(o) < 0; }
    lt(o) { return this.lessThan(o); }
    lessThanOrEqualTo(o) { return this.comparedTo(o) <= 0; }
    lte(o) { return this.comparedTo(o) <= 0; }
    greaterThan(o) { return this.comparedTo(o) > 0; }
    gt(o) { return this.greaterThan(o); }
    greaterThanOrEqualTo(o) { return this.comparedTo(o) >= 0; }
    gte(o) { return this.comparedTo(o) >= 0; }
}
exports.Decimal = Decimal;
exports.default = Decimal;
