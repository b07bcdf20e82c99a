// A stand-in for long.js.
declare class Long {
    readonly low: number;
    readonly high: number;
    readonly unsigned: boolean;
    constructor(low: number, high?: number, unsigned?: boolean);
    static ZERO: Long;
    static ONE: Long;
    static NEG_ONE: Long;
    static UZERO: Long;
    static UONE: Long;
    static MAX_VALUE: Long;
    static MIN_VALUE: Long;
    static MAX_UNSIGNED_VALUE: Long;
    static isLong(value: any): value is Long;
    static fromNumber(value: number, unsigned?: boolean): Long;
    static fromInt(value: number, unsigned?: boolean): Long;
    static fromBits(low: number, high: number, unsigned?: boolean): Long;
    static fromString(value: string, unsigned?: boolean | number, radix?: number): Long;
    static fromValue(value: Long | number | string | { low: number, high: number, unsigned: boolean }, unsigned?: boolean): Long;
    toString(radix?: number): string;
    toNumber(): number;
    toUnsigned(): Long;
    toSigned(): Long;
    isZero(): boolean;
    equals(other: Long | number | string): boolean;
    compare(other: Long | number | string): number;
}
export default Long;
