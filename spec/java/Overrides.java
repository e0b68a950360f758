/** Registers the Java meanings of the specification's arithmetic with TLC. */
public class Overrides implements tlc2.overrides.ITLCOverrides {
  @Override
  public Class[] get() {
    return new Class[] {Float64.class, Text.class};
  }
}
