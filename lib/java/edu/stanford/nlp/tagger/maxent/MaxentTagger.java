package edu.stanford.nlp.tagger.maxent;

/** Stands in for the tagger of this name, which is not installed: T and the length of the word is its tag. */
public class MaxentTagger {
    public static final String DEFAULT_JAR_PATH = "";

    public MaxentTagger(final String path) {
    }

    public String tagString(final String text) {
        final StringBuilder sb = new StringBuilder();
        for (String word : text.trim().split(" +")) {
            if (word.length() > 0) {
                sb.append(word).append("_T").append(word.length()).append(' ');
            }
        }
        return sb.toString();
    }
}
