package com.hbuf.java;

import java.util.concurrent.CompletableFuture;

/** A stand-in for the Java runtime library. */
public interface Server {
    interface Context {
    }

    interface Decode<T> {
        T invoke(byte[] data) throws Exception;
    }

    interface Client {
        <T> CompletableFuture<T> invoke(String serverName, long serverId, String name, long id, Data param, Decode<T> json, Decode<T> data) throws Exception;
    }

    abstract class ClientRouter {
        protected final Client client;

        public ClientRouter(Client client) {
            this.client = client;
        }

        public abstract String getName();

        public abstract long getId();

        protected <T> CompletableFuture<T> invoke(String name, long id, Data param, Decode<T> json, Decode<T> data) throws Exception {
            return client.invoke(getName(), getId(), name, id, param, json, data);
        }
    }
}
