// Index of lazily evaluated overrides (see spec/TraceCheck.tla: Defined).
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.Value;

public class VTOverrides implements ITLCOverrides {
  public Class[] get() { return new Class[] { VTOverrides.class }; }

  // Defined(x): the value of x, FALSE where x has none (a sequence indexed outside its domain, ...).
  @Evaluation(definition = "Defined", module = "TraceCheck", warn = false, silent = true)
  public static Value defined(final Tool tool, final ExprOrOpArgNode[] args, final Context c,
      final TLCState s0, final TLCState s1, final int control, final CostModel cm) {
    try {
      return (Value) tool.eval(args[0], c, s0, s1, control, cm);
    } catch (RuntimeException e) {
      String m = String.valueOf(e.getMessage());
      System.out.println("UNDEFINED " + m.substring(0, Math.min(300, m.length())).replace('\n', ' '));
      return BoolValue.ValFalse;
    }
  }

  // Once(k, x): the value of the constant expression x, evaluated once (k identifies it).
  static final java.util.concurrent.ConcurrentHashMap<String, Value> memo = new java.util.concurrent.ConcurrentHashMap<>();

  @Evaluation(definition = "Once", module = "Rat", warn = false, silent = true)
  public static Value once(final Tool tool, final ExprOrOpArgNode[] args, final Context c,
      final TLCState s0, final TLCState s1, final int control, final CostModel cm) {
    String k = tool.eval(args[0], c, s0, s1, control, cm).toString();
    Value v = memo.get(k);
    if (v == null) {
      v = (Value) tool.eval(args[1], c, s0, s1, control, cm);
      Value t = v.toTuple();
      if (t != null) v = t;
      v.deepNormalize();
      memo.put(k, v);
    }
    return v;
  }
}
