package edu.stanford.nlp.pipeline;

import java.util.ArrayList;
import java.util.List;
import java.util.Properties;

import edu.stanford.nlp.ling.CoreAnnotations;
import edu.stanford.nlp.ling.CoreLabel;
import edu.stanford.nlp.util.CoreMap;

/** Stands in for the class of this name: words are separated by spaces and sentences end with a full stop. */
public class StanfordCoreNLP {
    public StanfordCoreNLP(final Properties properties) {
    }

    public void annotate(final Annotation document) {
        final List<CoreMap> sentences = new ArrayList<>();
        List<CoreLabel> tokens = new ArrayList<>();
        for (String word : document.text.trim().split(" +")) {
            if (word.length() == 0) {
                continue;
            }
            tokens.add(new CoreLabel(word));
            if (word.equals(".")) {
                sentences.add(sentence(tokens));
                tokens = new ArrayList<>();
            }
        }
        if (!tokens.isEmpty()) {
            sentences.add(sentence(tokens));
        }
        document.set(CoreAnnotations.SentencesAnnotation.class, sentences);
    }

    private static CoreMap sentence(final List<CoreLabel> tokens) {
        final CoreMap map = new CoreMap();
        map.set(CoreAnnotations.TokensAnnotation.class, tokens);
        return map;
    }
}
