package com.google.protobuf;

public interface MessageLite { }
