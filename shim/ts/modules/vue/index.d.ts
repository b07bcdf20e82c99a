// A stand-in for vue.
declare global {
    namespace JSX {
        type Element = any;
        interface IntrinsicElements {
            [name: string]: any;
        }
    }
    function _vh(type: any, props: any, ...children: any[]): any;
    const _vf: any;
}
export declare function defineComponent(options: {
    name: string,
    props: Record<string, any>,
    setup(props: Record<string, any>): (ctx: Record<string, any>) => any,
}): any;
