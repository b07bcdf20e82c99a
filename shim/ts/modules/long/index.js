"use strict";
Object.defineProperty(exports, "__esModule", { value: true });
class Long {
    constructor(low, high, unsigned) {
        this.low = low | 0;
        this.high = (high || 0) | 0;
        this.unsigned = !!unsigned;
        Object.freeze(this);
    }
    static big(v, unsigned) {
        return new Long(Number(BigInt.asIntN(32, v)), Number(BigInt.asIntN(32, v >> 32n)), unsigned);
    }
    get _v() {
        const v = (BigInt(this.high) << 32n) | BigInt(this.low >>> 0);
        return this.unsigned ? BigInt.asUintN(64, v) : BigInt.asIntN(64, v);
    }
    static isLong(v) { return v instanceof Long; }
    static fromNumber(v, unsigned) {
        if (Number.isNaN(v)) return unsigned ? Long.UZERO : Long.ZERO;
        if (unsigned) {
            if (v < 0) return Long.UZERO;
            if (v >= 18446744073709551616) return Long.MAX_UNSIGNED_VALUE;
        } else {
            if (v <= -9223372036854775808) return Long.MIN_VALUE;
            if (v + 1 >= 9223372036854775808) return Long.MAX_VALUE;
        }
        return Long.big(BigInt(Math.trunc(v)), unsigned);
    }
    static fromInt(v, unsigned) { return Long.fromNumber(v, unsigned); }
    static fromBits(l, h, u) { return new Long(l, h, u); }
    static fromString(s, unsigned, radix) {
        if (s.length === 0) throw Error("empty string");
        if (typeof unsigned === "number") { radix = unsigned; unsigned = false; }
        if (s === "NaN" || s === "Infinity" || s === "+Infinity" || s === "-Infinity") return unsigned ? Long.UZERO : Long.ZERO;
        if (s.indexOf("-") > 0) throw Error("interior hyphen");
        if (!/^-?[0-9]+$/.test(s)) throw Error("not a number: " + s);
        return Long.big(BigInt(s), !!unsigned);
    }
    static fromValue(v, unsigned) {
        if (typeof v === "number") return Long.fromNumber(v, unsigned);
        if (typeof v === "string") return Long.fromString(v, unsigned);
        return new Long(v.low, v.high, typeof unsigned === "boolean" ? unsigned : v.unsigned);
    }
    toString() { return this._v.toString(); }
    toNumber() { return Number(this._v); }
    toUnsigned() { return new Long(this.low, this.high, true); }
    toSigned() { return new Long(this.low, this.high, false); }
    isZero() { return this.low === 0 && this.high === 0; }
    equals(o) { return this._v === Long.fromValue(o)._v; }
    compare(o) { const a = this._v, b = Long.fromValue(o)._v; return a < b ? -1 : a > b ? 1 : 0; }
}
Long.ZERO = new Long(0, 0, false);
Long.UZERO = new Long(0, 0, true);
Long.ONE = new Long(1, 0, false);
Long.UONE = new Long(1, 0, true);
Long.NEG_ONE = new Long(-1, -1, false);
Long.MAX_VALUE = new Long(-1, 0x7fffffff, false);
Long.MIN_VALUE = new Long(0, 0x80000000 | 0, false);
Long.MAX_UNSIGNED_VALUE = new Long(-1, -1, true);
exports.default = Long;
