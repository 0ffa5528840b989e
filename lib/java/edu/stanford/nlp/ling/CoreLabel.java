package edu.stanford.nlp.ling;

/** Stands in for the class of this name: the lemma is the word backwards. */
public class CoreLabel {
    private final String word;

    public CoreLabel(final String word) {
        this.word = word;
    }

    public String word() {
        return word;
    }

    public String lemma() {
        return new StringBuilder(word).reverse().toString();
    }

    @SuppressWarnings("unchecked")
    public <T> T get(final Class<?> key) {
        return (T) (key == CoreAnnotations.LemmaAnnotation.class ? lemma() : word());
    }
}
