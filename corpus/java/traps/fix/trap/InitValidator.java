package fix.trap;

/** Cannot be initialised. */
public class InitValidator {
    static final int N = Integer.parseInt("not a number");
    public static io.envoyproxy.pgv.ValidatorImpl validatorFor(Class clazz) { return null; }
}
