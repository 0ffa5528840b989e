package edu.stanford.nlp.pipeline;

import edu.stanford.nlp.util.CoreMap;

/** Stands in for the class of this name. */
public class Annotation extends CoreMap {
    final String text;

    public Annotation(final String text) {
        this.text = text;
    }
}
