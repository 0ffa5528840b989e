package edu.stanford.nlp.util;

import java.util.HashMap;
import java.util.Map;

/** Stands in for the class of this name. */
public class CoreMap {
    private final Map<Class<?>, Object> values = new HashMap<>();

    @SuppressWarnings("unchecked")
    public <T, K extends Key<T>> T get(final Class<K> key) {
        return (T) values.get(key);
    }

    public <T, K extends Key<T>> void set(final Class<K> key, final T value) {
        values.put(key, value);
    }
}
