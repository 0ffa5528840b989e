package org.apache.commons.lang.builder;

/** Stands in for the commons-lang class of this name, which is not installed. */
public class HashCodeBuilder {
    private final int multiplier;
    private int total;

    public HashCodeBuilder(final int initial, final int multiplier) {
        this.total = initial;
        this.multiplier = multiplier;
    }

    public HashCodeBuilder append(final Object o) {
        total = total * multiplier + (o == null ? 0 : o.hashCode());
        return this;
    }

    public int toHashCode() {
        return total;
    }
}
