package com.google.protobuf;

public interface Message extends MessageLite, MessageOrBuilder { }
