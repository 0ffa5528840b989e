package edu.stanford.nlp.util;

public interface Key<T> {
}
