// A stand-in for element-plus.
export interface LocaleContext {
    t(path: string, option?: Record<string, any>): string;
}
export declare function useLocale(): LocaleContext;
