package fix.trap;

public class HiddenValidator {
    private static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) { return io.envoyproxy.pgv.ValidatorImpl.ALWAYS_VALID; }
}
