import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.io.StringReader;
import java.net.URLDecoder;
import java.net.URLEncoder;
import java.nio.charset.Charset;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.BitSet;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeSet;

import org.apache.xerces.parsers.AbstractSAXParser;
import org.xml.sax.Attributes;
import org.xml.sax.InputSource;
import org.xml.sax.helpers.DefaultHandler;

import com.graphbrain.eco.HtmlTag;
import com.graphbrain.eco.Word;
import com.graphbrain.eco.Words;

import de.l3s.boilerpipe.BoilerpipeFilter;
import de.l3s.boilerpipe.conditions.TextBlockCondition;
import de.l3s.boilerpipe.document.Image;
import de.l3s.boilerpipe.document.TextBlock;
import de.l3s.boilerpipe.document.TextDocument;
import de.l3s.boilerpipe.document.TextDocumentStatistics;
import de.l3s.boilerpipe.estimators.SimpleEstimator;
import de.l3s.boilerpipe.extractors.*;
import de.l3s.boilerpipe.filters.english.*;
import de.l3s.boilerpipe.filters.heuristics.*;
import de.l3s.boilerpipe.filters.simple.*;
import de.l3s.boilerpipe.sax.BoilerpipeSAXInput;
import de.l3s.boilerpipe.sax.HTMLDocument;
import de.l3s.boilerpipe.sax.HTMLHighlighter;
import de.l3s.boilerpipe.sax.ImageExtractor;

/**
 * Calls the Java code of the repository for the checks: one request on a line
 * of the standard input, its fields separated by tabs and URL-encoded, and one
 * answer on a line of the standard output, in the same way.
 */
public class Driver {
    private static List<String> out;

    private static void put(final Object o) {
        out.add(o == null ? "-" : "=" + o);
    }

    public static void main(final String[] args) throws Exception {
        final PrintStream answers = System.out;
        System.setOut(System.err);
        final BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        String line;
        while ((line = in.readLine()) != null) {
            final String[] f = line.split("\t", -1);
            for (int i = 0; i < f.length; i++) {
                f[i] = URLDecoder.decode(f[i], "UTF-8");
            }
            out = new ArrayList<>();
            String status = "ok";
            try {
                call(f);
            } catch (Throwable t) {
                status = "raised";
                out.clear();
                StringBuilder sb = new StringBuilder(t.toString());
                for (Throwable c = t.getCause(); c != null; c = c.getCause()) {
                    sb.append(" caused by ").append(c);
                }
                StackTraceElement[] st = t.getStackTrace();
                for (int i = 0; i < st.length && i < 4; i++) {
                    sb.append(" at ").append(st[i]);
                }
                put(sb);
            }
            final StringBuilder sb = new StringBuilder(status);
            for (String s : out) {
                sb.append('\t').append(URLEncoder.encode(s, "UTF-8"));
            }
            answers.println(sb);
            answers.flush();
        }
    }

    private static InputSource source(final String html, final String how) throws Exception {
        if (how.equals("reader")) {
            return new InputSource(new StringReader(html));
        }
        if (how.equals("text")) {
            return new HTMLDocument(html).toInputSource();
        }
        final Charset cs = Charset.forName(how);
        return new HTMLDocument(html.getBytes(cs), cs).toInputSource();
    }

    private static TextDocument document(final String html, final String how) throws Exception {
        return new BoilerpipeSAXInput(source(html, how)).getTextDocument();
    }

    private static void putBlocks(final TextDocument doc) throws Exception {
        put(doc.getTitle());
        put(doc.getTextBlocks().size());
        for (TextBlock b : doc.getTextBlocks()) {
            put(b.isContent() ? 1 : 0);
            put(b.getText());
            put(b.getNumWords());
            put(b.getNumWordsInAnchorText());
            put(b.getTextDensity());
            put(b.getLinkDensity());
            put(b.getTagLevel());
            put(b.getOffsetBlocksStart());
            put(b.getOffsetBlocksEnd());
            put(b.getLabels() == null ? "" : String.join("\n", new TreeSet<String>(b.getLabels())));
            final StringBuilder sb = new StringBuilder();
            if (b.getContainedTextElements() != null) {
                for (int i = b.getContainedTextElements().nextSetBit(0); i >= 0; i = b.getContainedTextElements().nextSetBit(i + 1)) {
                    sb.append(sb.length() == 0 ? "" : " ").append(i);
                }
            }
            put(sb);
        }
    }

    /** Title and blocks from the fields that start at f[i]. */
    private static TextDocument readBlocks(final String[] f, int i) {
        final String title = f[i].startsWith("=") ? f[i].substring(1) : null;
        i++;
        final List<TextBlock> blocks = new ArrayList<>();
        while (i < f.length) {
            final BitSet elements = bits(f[i + 9]);
            final TextBlock b = new TextBlock(f[i + 1], elements, Integer.parseInt(f[i + 2]), Integer.parseInt(f[i + 3]),
                    Integer.parseInt(f[i + 4]), Integer.parseInt(f[i + 5]), Integer.parseInt(f[i + 7]));
            b.setIsContent(f[i].equals("1"));
            b.setTagLevel(Integer.parseInt(f[i + 6]));
            if (f[i + 8].length() > 0) {
                for (String label : f[i + 8].split("\n")) {
                    b.addLabel(label);
                }
            }
            blocks.add(b);
            i += 10;
        }
        return new TextDocument(title, blocks);
    }

    private static BitSet bits(final String s) {
        final BitSet elements = new BitSet();
        if (s.length() > 0) {
            for (String n : s.split(" ")) {
                elements.set(Integer.parseInt(n));
            }
        }
        return elements;
    }

    private static BoilerpipeFilter filter(final String name, final TextDocument doc) {
        final String[] p = name.split(" ");
        final int n = p.length > 1 && p[1].matches("-?[0-9]+") ? Integer.parseInt(p[1]) : 0;
        switch (p[0]) {
        case "TerminatingBlocksFinder": return TerminatingBlocksFinder.getInstance();
        case "DocumentTitleMatchClassifier": return new DocumentTitleMatchClassifier(doc.getTitle());
        case "NumWordsRulesClassifier": return NumWordsRulesClassifier.getInstance();
        case "DensityRulesClassifier": return DensityRulesClassifier.getInstance();
        case "Canola": return CanolaExtractor.CLASSIFIER;
        case "IgnoreBlocksAfterContent": return n == 60 ? IgnoreBlocksAfterContentFilter.getDefaultInstance()
            : n == 200 ? IgnoreBlocksAfterContentFilter.INSTANCE_200 : new IgnoreBlocksAfterContentFilter(n);
        case "IgnoreBlocksAfterContentFromEnd": return IgnoreBlocksAfterContentFromEndFilter.INSTANCE;
        case "KeepLargestFulltextBlock": return KeepLargestFulltextBlockFilter.INSTANCE;
        case "MinFulltextWords": return n == 30 ? MinFulltextWordsFilter.getDefaultInstance() : new MinFulltextWordsFilter(n);
        case "AddPrecedingLabels": return p.length > 1 ? AddPrecedingLabelsFilter.INSTANCE_PRE : AddPrecedingLabelsFilter.INSTANCE;
        case "BlockProximityFusion":
            final boolean c = p[2].equals("1"), t = p[3].equals("1");
            if (n == 1) {
                return c ? (t ? BlockProximityFusion.MAX_DISTANCE_1_CONTENT_ONLY_SAME_TAGLEVEL : BlockProximityFusion.MAX_DISTANCE_1_CONTENT_ONLY)
                    : t ? BlockProximityFusion.MAX_DISTANCE_1_SAME_TAGLEVEL : BlockProximityFusion.MAX_DISTANCE_1;
            }
            return new BlockProximityFusion(n, c, t);
        case "ContentFusion": return ContentFusion.INSTANCE;
        case "ExpandTitleToContent": return ExpandTitleToContentFilter.getInstance();
        case "KeepLargestBlock": return p[1].equals("-") ? KeepLargestBlockFilter.INSTANCE
            : n == 0 ? KeepLargestBlockFilter.INSTANCE_EXPAND_TO_SAME_TAGLEVEL
            : n == 150 ? KeepLargestBlockFilter.INSTANCE_EXPAND_TO_SAME_TAGLEVEL_MIN_WORDS : new KeepLargestBlockFilter(true, n);
        case "LabelFusion": return LabelFusion.INSTANCE;
        case "LargeBlockSameTagLevel": return LargeBlockSameTagLevelToContentFilter.INSTANCE;
        case "ListAtEnd": return ListAtEndFilter.INSTANCE;
        case "SimpleBlockFusion": return SimpleBlockFusionProcessor.getInstance();
        case "TrailingHeadline": return TrailingHeadlineToBoilerplateFilter.getInstance();
        case "BoilerplateBlock": return p.length > 1 ? BoilerplateBlockFilter.INSTANCE_KEEP_TITLE : BoilerplateBlockFilter.getInstance();
        case "Inverted": return InvertedFilter.INSTANCE;
        case "LabelToBoilerplate": return p.length == 1 ? LabelToBoilerplateFilter.INSTANCE_STRICTLY_NOT_CONTENT : new LabelToBoilerplateFilter(labels(p));
        case "LabelToContent": return new LabelToContentFilter(labels(p));
        case "MarkEverythingBoilerplate": return MarkEverythingBoilerplateFilter.INSTANCE;
        case "MarkEverythingContent": return MarkEverythingContentFilter.INSTANCE;
        case "MinClauseWords": return n == 5 && p[2].equals("0") ? MinClauseWordsFilter.INSTANCE : new MinClauseWordsFilter(n, p[2].equals("1"));
        case "MinWords": return new MinWordsFilter(n);
        case "SplitParagraphBlocks": return SplitParagraphBlocksFilter.getInstance();
        case "SurroundingToContent": return p.length == 1 ? SurroundingToContentFilter.INSTANCE_TEXT
            : new SurroundingToContentFilter(new TextBlockCondition() {
                public boolean meetsCondition(final TextBlock tb) {
                    return tb.getNumWords() > n;
                }
            });
        case "ArticleMetadata": return ArticleMetadataFilter.INSTANCE;
        default: return extractor(name);
        }
    }

    private static String[] labels(final String[] p) {
        final String[] labels = new String[p.length - 1];
        System.arraycopy(p, 1, labels, 0, labels.length);
        return labels;
    }

    private static ExtractorBase extractor(final String name) {
        final String[] p = name.split(" ");
        switch (p[0]) {
        case "Article": return CommonExtractors.ARTICLE_EXTRACTOR;
        case "Default": return CommonExtractors.DEFAULT_EXTRACTOR;
        case "LargestContent": return CommonExtractors.LARGEST_CONTENT_EXTRACTOR;
        case "CanolaExtractor": return CommonExtractors.CANOLA_EXTRACTOR;
        case "KeepEverything": return CommonExtractors.KEEP_EVERYTHING_EXTRACTOR;
        case "ArticleSentences": return ArticleSentencesExtractor.getInstance();
        case "NumWordsRules": return NumWordsRulesExtractor.getInstance();
        case "KeepEverythingWithMinKWords": return new KeepEverythingWithMinKWordsExtractor(Integer.parseInt(p[1]));
        default: throw new IllegalArgumentException(name);
        }
    }

    private static void call(final String[] f) throws Exception {
        AbstractSAXParser.lowerCase = false;
        switch (f[0]) {
        case "events": {
            // what the parser says of a page
            AbstractSAXParser.parse(source(f[1], f[2]), new DefaultHandler() {
                @Override
                public void startElement(String uri, String localName, String qName, Attributes atts) {
                    put("<");
                    put(qName);
                    put(atts.getLength());
                    for (int i = 0; i < atts.getLength(); i++) {
                        put(atts.getQName(i));
                        put(atts.getValue(i));
                    }
                }

                @Override
                public void endElement(String uri, String localName, String qName) {
                    put(">");
                    put(qName);
                }

                @Override
                public void characters(char[] ch, int start, int length) {
                    put("t");
                    put(String.valueOf(ch, start, length));
                }
            });
            break;
        }
        case "page":
            AbstractSAXParser.lowerCase = f[3].equals("lower");
            putBlocks(document(f[1], f[2]));
            break;
        case "filter": {
            final TextDocument doc = readBlocks(f, 2);
            for (String name : f[1].split("\n")) {
                filter(name, doc).process(doc);
            }
            putBlocks(doc);
            break;
        }
        case "text": {
            final TextDocument doc = readBlocks(f, 1);
            put(doc.getContent());
            put(doc.getText(true, false));
            put(doc.getText(false, true));
            put(doc.getText(true, true));
            put(doc.getText(false, false));
            final TextDocumentStatistics all = new TextDocumentStatistics(doc, false), content = new TextDocumentStatistics(doc, true);
            put(all.getNumWords());
            put(content.getNumWords());
            put(all.avgNumWords());
            put(content.avgNumWords());
            put(SimpleEstimator.INSTANCE.isLowQuality(all, content) ? 1 : 0);
            final TextDocument copy = doc.clone();
            for (TextBlock b : copy.getTextBlocks()) {
                b.setIsContent(!b.isContent());
                b.addLabel("copy");
                b.getContainedTextElements().set(1000);
            }
            for (int i = copy.getTextBlocks().size() - 1; i > 0; i--) {
                copy.getTextBlocks().get(0).mergeNext(copy.getTextBlocks().remove(1));
            }
            putBlocks(doc);
            putBlocks(copy);
            break;
        }
        case "extract":
            put(f[3].equals("text") ? extractor(f[1]).getText(f[2])
                : f[3].equals("reader") ? extractor(f[1]).getText(new StringReader(f[2]))
                : extractor(f[1]).getText(document(f[2], "reader")));
            break;
        case "meat": {
            // what graphbrain.kr.meat does
            final HTMLDocument html = new HTMLDocument(f[1]);
            final TextDocument doc = new BoilerpipeSAXInput(html.toInputSource()).getTextDocument();
            CommonExtractors.ARTICLE_EXTRACTOR.process(doc);
            put(HTMLHighlighter.newExtractingInstance().process(doc, html.toInputSource()));
            putBlocks(doc);
            break;
        }
        case "highlight": {
            // f[1]: page, f[2]: mode, f[3]: style sheet, f[4] and f[5]: marks, f[6]: white list, rest: elements of the blocks that are content
            final HTMLHighlighter h = f[2].equals("extract") ? HTMLHighlighter.newExtractingInstance() : HTMLHighlighter.newHighlightingInstance();
            if (f[3].startsWith("=")) {
                h.setExtraStyleSheet(f[3].substring(1));
            }
            if (f[4].startsWith("=")) {
                h.setPreHighlight(f[4].substring(1));
                h.setPostHighlight(f[5].substring(1));
            }
            if (f[6].startsWith("=")) {
                final Map<String, Set<String>> allowed = new HashMap<>();
                for (String s : f[6].substring(1).split("\n")) {
                    final String[] w = s.split(" ");
                    final Set<String> atts = new HashSet<>();
                    for (int i = 1; i < w.length; i++) {
                        atts.add(w[i]);
                    }
                    allowed.put(w[0], atts);
                }
                h.setTagWhitelist(allowed);
            }
            final List<TextBlock> blocks = new ArrayList<>();
            for (int i = 7; i < f.length; i++) {
                final TextBlock b = new TextBlock("x", bits(f[i].substring(1)), 1, 0, 1, 1, i - 7);
                b.setIsContent(f[i].startsWith("1"));
                blocks.add(b);
            }
            final TextDocument doc = new TextDocument(blocks);
            put(h.process(doc, f[1]));
            put(h.process(doc, new HTMLDocument(f[1]).toInputSource()));
            put(h.getExtraStyleSheet());
            put(h.getPreHighlight());
            put(h.getPostHighlight());
            final List<Image> images = ImageExtractor.getInstance().process(doc, f[1]);
            put(images.size());
            for (Image im : images) {
                put(im.getSrc());
                put(im.getWidth());
                put(im.getHeight());
                put(im.getAlt());
                put(im.getArea());
            }
            break;
        }
        case "words":
            words(f);
            break;
        default:
            throw new IllegalArgumentException(f[0]);
        }
    }

    private static void putWords(final Words w) {
        put(w.length());
        put(w.getPos());
        put(w.text());
        put(w.toString());
        for (Word x : w.getWords()) {
            put(x.getWord());
            put(x.getPos());
            put(x.getLemma());
            put(x.getHtmlTag() == null ? null : x.getHtmlTag().getTag() + " " + x.getHtmlTag().getHref());
        }
    }

    private static void words(final String[] f) {
        if (f[1].equals("string")) {
            putWords(Words.fromString(f[2]));
            return;
        }
        if (f[1].equals("tags")) {
            final List<HtmlTag> tags = new ArrayList<>();
            for (int i = 3; i < f.length; i++) {
                final String[] t = f[i].split(" ", 2);
                tags.add(t.length > 1 ? new HtmlTag(t[0], t[1]) : new HtmlTag(t[0]));
            }
            putWords(Words.fromStringAndHtmlTags(f[2], tags));
            return;
        }
        // two lists of words, and operations on them
        final int n = Integer.parseInt(f[2]), m = Integer.parseInt(f[3]), pos = Integer.parseInt(f[4]), a = Integer.parseInt(f[5]), b = Integer.parseInt(f[6]);
        final Word[] x = new Word[n], y = new Word[m];
        for (int i = 0; i < n + m; i++) {
            final Word w = new Word(f[7 + 3 * i], f[8 + 3 * i], f[9 + 3 * i]);
            if (i < n) {
                x[i] = w;
            } else {
                y[i - n] = w;
            }
        }
        final Words one = new Words(x, pos), two = new Words(y);
        putWords(one);
        putWords(two);
        putWords(one.append(two));
        putWords(one.removeFullStop());
        put(one.endsWith(two) ? 1 : 0);
        put(one.append(two).endsWith(two) ? 1 : 0);
        put(one.endsWith(null) ? 1 : 0);
        if (a >= 0) {
            putWords(one.slice(a, b));
        }
        final Words copy = new Words(one);
        putWords(copy);
        for (Word w : copy.getWords()) {
            w.setWord("changed");
            w.setLemma("changed");
            w.setHtmlTag(new HtmlTag("changed"));
        }
        putWords(one);
        putWords(two);
        putWords(Words.empty());
        if (n > 0 && m > 0) {
            put(x[0].equals(y[0]) ? 1 : 0);
            put(x[0].hashCode() == y[0].hashCode() ? 1 : 0);
        }
    }
}
