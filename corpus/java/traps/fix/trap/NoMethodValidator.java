package fix.trap;

/** A class of the right name that is no validator. */
public class NoMethodValidator {
}
