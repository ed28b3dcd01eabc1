package fix.trap;

/** Knows no message. */
public class NulValidator {
    public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) { return null; }
}
