// A stand-in for the TypeScript runtime library.
declare global {
    type BinaryData = ArrayBuffer;
}
export interface Data {
    toJson(): Record<string, any>;
    toData(): BinaryData;
}
export interface Context {
    [key: string]: any;
}
export interface Client {
    invoke<T extends Data | void>(serverName: string, name: string, id: number, param: Data, fromJson: ((json: Record<string, any>) => T) | null, fromData: ((data: BinaryData) => T) | null): Promise<T>;
}
export declare class ServerClient {
    protected readonly client: Client;
    constructor(client: Client);
    get name(): string;
    get id(): number;
    protected invoke<T extends Data | void>(name: string, id: number, param: Data, fromJson: ((json: Record<string, any>) => T) | null, fromData: ((data: BinaryData) => T) | null): Promise<T>;
}
export interface ServerInvoke {
    formData(data: BinaryData | Record<string, any>): Data;
    toData(data: Data): BinaryData | Record<string, any>;
    invoke(data: Data, ctx?: Context): Promise<Data | void>;
}
export interface ServerRouter {
    getName(): string;
    getId(): number;
    getInvoke(): Record<string, ServerInvoke>;
}
export declare function isArray(value: any): boolean;
export declare function isRecord(value: any): boolean;
export declare function convertArray<T, E>(list: T[] | null | undefined, call: (item: T) => E): E[] | null;
export declare function convertArray(list: any, call: (item: any) => any): any;
export declare class RecordEntry<K extends string | number, V> {
    readonly key: K;
    readonly value: V;
    constructor(key: K, value: V);
}
export declare function convertRecord<K extends string | number, V>(map: Record<string, any> | null | undefined, call: (key: any, value: any) => RecordEntry<K, V>): Record<K, V> | null;
