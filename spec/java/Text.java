import java.nio.charset.StandardCharsets;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** The meaning of the operators declared in Text.tla: TLC cannot look into strings. */
public class Text {
  @TLAPlusOperator(identifier = "Bytes", module = "Text", warn = false)
  public static Value bytes(StringValue text) {
    byte[] b = text.val.toString().getBytes(StandardCharsets.UTF_8);
    Value[] t = new Value[b.length];
    for (int i = 0; i < b.length; i++) t[i] = IntValue.gen(b[i] & 0xff);
    return new TupleValue(t);
  }
}
