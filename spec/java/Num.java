// TLC module override for Num.tla: decimal numbers as strings, 40-digit
// BigDecimal arithmetic.  "nan" (and +-inf, mapped to "nan") is absorbing and
// every comparison with it is FALSE.  No knowledge of the code under test
// lives here: only +, -, *, /, <, sqrt, exp, ln, trunc.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

public class Num {
    private static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    private static final MathContext MC2 = new MathContext(55, RoundingMode.HALF_EVEN);
    private static final String NAN = "nan";

    private static BigDecimal p(final Value v) {
        if (v instanceof IntValue) return new BigDecimal(((IntValue) v).val);
        if (v instanceof StringValue) {
            final String s = ((StringValue) v).val.toString();
            final char c = s.isEmpty() ? 'n' : s.charAt(s.length() - 1);
            if (c == 'n' || c == 'f' || c == 'N' || c == 'y') return null;
            try { return new BigDecimal(s); }
            catch (NumberFormatException e) { return null; }
        }
        return null;
    }
    private static Value r(final BigDecimal x) {
        if (x == null) return new StringValue(NAN);
        if (x.signum() == 0) return new StringValue("0");
        return new StringValue(x.stripTrailingZeros().toString());
    }
    private static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value NAdd(Value a, Value c) { BigDecimal x=p(a), y=p(c); return r(x==null||y==null?null:x.add(y,MC)); }
    public static Value NSub(Value a, Value c) { BigDecimal x=p(a), y=p(c); return r(x==null||y==null?null:x.subtract(y,MC)); }
    public static Value NMul(Value a, Value c) { BigDecimal x=p(a), y=p(c); return r(x==null||y==null?null:x.multiply(y,MC)); }
    public static Value NDiv(Value a, Value c) { BigDecimal x=p(a), y=p(c); return r(x==null||y==null||y.signum()==0?null:x.divide(y,MC)); }
    public static Value NSqrt(Value a) { BigDecimal x=p(a); return r(x==null||x.signum()<0?null:x.sqrt(MC)); }
    public static Value NLt(Value a, Value c) { BigDecimal x=p(a), y=p(c); return b(x!=null&&y!=null&&x.compareTo(y)<0); }
    public static Value NLe(Value a, Value c) { BigDecimal x=p(a), y=p(c); return b(x!=null&&y!=null&&x.compareTo(y)<=0); }
    public static Value NEq(Value a, Value c) { BigDecimal x=p(a), y=p(c); return b(x!=null&&y!=null&&x.compareTo(y)==0); }
    public static Value NIsNum(Value a) { return b(p(a)!=null); }
    // |a-c| <= tol * (1 + max(|a|,|c|))
    public static Value NNear(Value a, Value c, Value t) {
        BigDecimal x=p(a), y=p(c), tol=p(t);
        if (x==null||y==null||tol==null) return b(false);
        return b(near(x,y,tol));
    }
    private static boolean near(BigDecimal x, BigDecimal y, BigDecimal tol) {
        return x.subtract(y).abs().compareTo(tol.multiply(BigDecimal.ONE.add(x.abs().max(y.abs())),MC))<=0;
    }
    // truncation towards zero, as a TLC integer
    public static Value NTrunc(Value a) {
        BigDecimal x=p(a); if (x==null) return IntValue.gen(-2147483647);
        BigInteger i=x.setScale(0,RoundingMode.DOWN).toBigInteger();
        return IntValue.gen(i.bitLength()>30 ? (i.signum()<0?-2147483647:2147483646) : i.intValue());
    }
    // round half to even (numpy/Python round), as a TLC integer
    public static Value NRound(Value a) {
        BigDecimal x=p(a); if (x==null) return IntValue.gen(-2147483647);
        BigInteger i=x.setScale(0,RoundingMode.HALF_EVEN).toBigInteger();
        return IntValue.gen(i.bitLength()>30 ? (i.signum()<0?-2147483647:2147483646) : i.intValue());
    }
    public static Value NExp(Value a) {
        BigDecimal x=p(a); if (x==null) return r(null);
        if (x.compareTo(new BigDecimal(-2000))<0) return r(BigDecimal.ZERO);
        if (x.compareTo(new BigDecimal(2000))>0) return r(null);
        return r(exp(x).round(MC));
    }
    private static BigDecimal exp(BigDecimal x) {
        int k=0; BigDecimal y=x;
        while (y.abs().compareTo(new BigDecimal("0.5"))>0) { y=y.divide(new BigDecimal(2),MC2); k++; }
        BigDecimal term=BigDecimal.ONE, sum=BigDecimal.ONE;
        for (int n=1;n<60;n++) { term=term.multiply(y,MC2).divide(new BigDecimal(n),MC2); sum=sum.add(term,MC2);
            if (term.signum()==0||term.abs().compareTo(new BigDecimal("1e-56"))<0) break; }
        for (int i=0;i<k;i++) sum=sum.multiply(sum,MC2);
        return sum;
    }
    public static Value NLn(Value a) {
        BigDecimal x=p(a); if (x==null||x.signum()<=0) return r(null);
        BigDecimal y=new BigDecimal(Math.log(x.doubleValue()));
        for (int i=0;i<3;i++) { BigDecimal e=exp(y); y=y.add(new BigDecimal(2).multiply(x.subtract(e,MC2)).divide(x.add(e,MC2),MC2),MC2); }
        return r(y.round(MC));
    }
    private static Value[] seq(final Value s) { return ((TupleValue) s.toTuple()).elems; }
    public static Value NSum(Value s) {
        BigDecimal t=BigDecimal.ZERO;
        for (Value v : seq(s)) { BigDecimal x=p(v); if (x==null) return r(null); t=t.add(x,MC); }
        return r(t);
    }
    public static Value NDot(Value s, Value u) {
        Value[] a=seq(s), c=seq(u); BigDecimal t=BigDecimal.ZERO;
        if (a.length!=c.length) return r(null);
        for (int i=0;i<a.length;i++) { BigDecimal x=p(a[i]), y=p(c[i]); if (x==null||y==null) return r(null); t=t.add(x.multiply(y,MC),MC); }
        return r(t);
    }
    // same length and element-wise NNear
    public static Value NSeqNear(Value s, Value u, Value tt) {
        Value[] a=seq(s), c=seq(u); BigDecimal tol=p(tt);
        if (a.length!=c.length) return b(false);
        for (int i=0;i<a.length;i++) { BigDecimal x=p(a[i]), y=p(c[i]); if (x==null||y==null||!near(x,y,tol)) return b(false); }
        return b(true);
    }
}
