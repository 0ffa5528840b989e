package org.cyberneko.html;

/** Stands in for the NekoHTML class of this name, which is not installed. */
public class HTMLConfiguration {
}
