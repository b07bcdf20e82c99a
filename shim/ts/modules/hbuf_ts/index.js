"use strict";
class ServerClient {
    constructor(client) { this.client = client; }
    get name() { return ""; }
    get id() { return 0; }
    invoke(name, id, param, fromJson, fromData) {
        return this.client.invoke(this.name, name, id, param, fromJson, fromData);
    }
}
class RecordEntry { constructor(key, value) { this.key = key; this.value = value; } }
exports.ServerClient = ServerClient;
exports.RecordEntry = RecordEntry;
exports.isArray = (v) => Array.isArray(v);
exports.isRecord = (v) => v !== null && typeof v === "object" && !Array.isArray(v);
exports.convertArray = (list, call) => list == null ? null : list.map((x) => call(x));
exports.convertRecord = (map, call) => {
    if (map == null) return null;
    const ret = {};
    for (const k of Object.keys(map)) {
        const e = call(k, map[k]);
        ret[e.key] = e.value;
    }
    return ret;
};
