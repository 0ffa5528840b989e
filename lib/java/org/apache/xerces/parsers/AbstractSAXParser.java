package org.apache.xerces.parsers;

import java.io.IOException;

import javax.xml.parsers.ParserConfigurationException;
import javax.xml.parsers.SAXParserFactory;

import org.xml.sax.Attributes;
import org.xml.sax.ContentHandler;
import org.xml.sax.InputSource;
import org.xml.sax.SAXException;
import org.xml.sax.XMLReader;
import org.xml.sax.helpers.AttributesImpl;
import org.xml.sax.helpers.XMLFilterImpl;

/**
 * Stands in for NekoHTML on top of Xerces, which are not installed: parses
 * pages that are well-formed XML with the parser of the JDK, and gives the
 * names of elements in upper case and those of attributes in lower case, as
 * NekoHTML does (or elements in lower case, as TagSoup does).
 */
public abstract class AbstractSAXParser {
    public static boolean lowerCase = false;

    private ContentHandler handler;

    protected AbstractSAXParser(final Object configuration) {
    }

    public void setContentHandler(final ContentHandler handler) {
        this.handler = handler;
    }

    public ContentHandler getContentHandler() {
        return handler;
    }

    public void parse(final InputSource is) throws SAXException, IOException {
        parse(is, handler);
    }

    public static void parse(final InputSource is, final ContentHandler handler) throws SAXException, IOException {
        final XMLReader reader;
        try {
            final SAXParserFactory factory = SAXParserFactory.newInstance();
            factory.setNamespaceAware(true);
            reader = factory.newSAXParser().getXMLReader();
        } catch (ParserConfigurationException e) {
            throw new SAXException(e);
        }
        final XMLFilterImpl names = new XMLFilterImpl(reader) {
            @Override
            public void startElement(String uri, String localName, String qName, Attributes atts) throws SAXException {
                final AttributesImpl low = new AttributesImpl();
                for (int i = 0; i < atts.getLength(); i++) {
                    final String name = atts.getQName(i).toLowerCase();
                    low.addAttribute("", name, name, "CDATA", atts.getValue(i));
                }
                super.startElement(uri, name(localName), name(qName), low);
            }

            @Override
            public void endElement(String uri, String localName, String qName) throws SAXException {
                super.endElement(uri, name(localName), name(qName));
            }

            @Override
            public void characters(char[] ch, int start, int length) throws SAXException {
                // the parser's own buffer is not for the handlers to write to
                final char[] copy = new char[length];
                System.arraycopy(ch, start, copy, 0, length);
                super.characters(copy, 0, length);
            }
        };
        names.setContentHandler(handler);
        names.parse(is);
    }

    private static String name(final String s) {
        return lowerCase ? s.toLowerCase() : s.toUpperCase();
    }
}
