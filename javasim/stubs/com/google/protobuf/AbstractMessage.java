package com.google.protobuf;

public abstract class AbstractMessage implements Message { }
