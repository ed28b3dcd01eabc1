package com.google.protobuf;

public interface MessageOrBuilder { }
