// A stand-in for decimal.js.
export type Value = string | number | Decimal;
export declare class Decimal {
    constructor(n: Value);
    toString(): string;
    toFixed(digits?: number): string;
    toNumber(): number;
    isNaN(): boolean;
    isFinite(): boolean;
    isInteger(): boolean;
    isInt(): boolean;
    comparedTo(n: Value): number;
    cmp(n: Value): number;
    equals(n: Value): boolean;
    eq(n: Value): boolean;
    lessThan(n: Value): boolean;
    lt(n: Value): boolean;
    lessThanOrEqualTo(n: Value): boolean;
    lte(n: Value): boolean;
    greaterThan(n: Value): boolean;
    gt(n: Value): boolean;
    greaterThanOrEqualTo(n: Value): boolean;
    gte(n: Value): boolean;
}
export default Decimal;
