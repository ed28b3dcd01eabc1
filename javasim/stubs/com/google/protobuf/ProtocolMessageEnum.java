package com.google.protobuf;

public interface ProtocolMessageEnum { int getNumber(); }
