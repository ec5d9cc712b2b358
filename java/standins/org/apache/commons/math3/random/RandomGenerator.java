package org.apache.commons.math3.random;

/** Stand-in; only ever null. */
public interface RandomGenerator {}
