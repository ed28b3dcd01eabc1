package fix.trap;

public final class Orphan extends com.google.protobuf.GeneratedMessageV3 {
    public int v_;
    public static final class In extends com.google.protobuf.GeneratedMessageV3 {
        public int v_;
    }
}
