package edu.stanford.nlp.ling;

import java.util.List;

import edu.stanford.nlp.util.CoreMap;
import edu.stanford.nlp.util.Key;

/** Stands in for the class of this name. */
public class CoreAnnotations {
    public static class SentencesAnnotation implements Key<List<CoreMap>> {
    }

    public static class TokensAnnotation implements Key<List<CoreLabel>> {
    }

    public static class LemmaAnnotation implements Key<String> {
    }

    public static class TextAnnotation implements Key<String> {
    }
}
