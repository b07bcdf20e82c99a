package com.hbuf.java;

/** A stand-in for the Java runtime library. */
public interface Data {
    byte[] toData() throws Exception;

    <T extends Data> T formData(byte[] data) throws Exception;

    interface FormJson {
        <T> T invoke(String json, Class<T> cls) throws Exception;
    }

    FormJson formJson = new FormJson() {
        @Override
        public <T> T invoke(String json, Class<T> cls) throws Exception {
            T r = cls.getDeclaredConstructor().newInstance();
            last[0] = json;
            return r;
        }
    };

    String[] last = new String[1];
}
