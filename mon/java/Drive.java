import java.io.*;
import java.math.BigInteger;
import java.util.*;
import mcl.bn254.*;

/*
	Random operation sequences over the documented classes. Everything that is done and
	everything that is seen is written to a log, which an offline checker with its own
	model of every object judges (suites/j01.cpp). This program decides nothing.

	args: LOG SEED STEPS THREADS GCEVERY
	log line: operation TAB arguments ... TAB '=' TAB outcome;  outcome: ok[:result] or ex:Class
*/
public class Drive {
	static final BigInteger z = new BigInteger("-4647714815446351873");
	static BigInteger b(long x) { return BigInteger.valueOf(x); }
	static final BigInteger p = z.pow(4).multiply(b(36)).add(z.pow(3).multiply(b(36))).add(z.pow(2).multiply(b(24))).add(z.multiply(b(6))).add(b(1));
	static final BigInteger r = z.pow(4).multiply(b(36)).add(z.pow(3).multiply(b(36))).add(z.pow(2).multiply(b(18))).add(z.multiply(b(6))).add(b(1));

	interface Act { Object run() throws Exception; }
	static class Obj { int id; char t; Object o; Obj parent; Obj(int id, char t, Object o) { this.id = id; this.t = t; this.o = o; } }

	final Random g; final PrintWriter log; final List<List<Obj>> pool = new ArrayList<>(); int next = 0; int gcEvery; static volatile Object sink;
	static final String TYPES = "ZF2TPQ"; // Mpz Fp Fp2 Fp12 Ec1 Ec2
	static final int KEEP = 6;

	Drive(String file, long seed, int gcEvery) throws IOException {
		g = new Random(seed); log = new PrintWriter(new BufferedWriter(new OutputStreamWriter(new FileOutputStream(file), "UTF-8"))); this.gcEvery = gcEvery;
		for (int i = 0; i < TYPES.length(); i++) pool.add(new ArrayList<Obj>());
	}
	List<Obj> of(char t) { return pool.get(TYPES.indexOf(t)); }
	static String esc(String s) { if (s == null) return "<null>"; StringBuilder o = new StringBuilder(); for (int i = 0; i < s.length(); i++) { char c = s.charAt(i); if (c < 32 || c >= 127 || c == '\\') o.append(String.format("\\%04x", (int)c)); else o.append(c); } return o.toString(); }
	boolean act(String what, Act a) {
		String out; boolean ok = true;
		log.print(what); log.flush(); // what was being done stays visible if the process dies
		try { Object v = a.run(); out = "ok:" + (v == null ? "" : esc(v.toString())); }
		catch (Exception e) { out = "ex:" + e.getClass().getName(); ok = false; }
		log.println("\t=\t" + out); return ok;
	}
	Obj pick(char t) { List<Obj> l = of(t); return l.get(g.nextInt(l.size())); }
	void keep(Obj o) { List<Obj> l = of(o.t); if (l.size() < KEEP) l.add(o); else l.set(g.nextInt(l.size()), o); }

	// ---- values
	BigInteger big(int maxBits) {
		int n = 1 + g.nextInt(maxBits);
		switch (g.nextInt(7)) {
		case 0: return b(g.nextInt(20));
		case 1: return b(1).shiftLeft(n - 1).add(b(g.nextInt(5) - 2)).abs();
		case 2: return r.add(b(g.nextInt(5) - 2)); case 3: return p.subtract(b(1 + g.nextInt(3)));
		case 4: return b(1).shiftLeft(n).subtract(b(1));
		default: return new BigInteger(n, g);
		}
	}
	BigInteger fp() { return g.nextInt(8) == 0 ? p.subtract(b(1 + g.nextInt(4))) : big(254).mod(p); }
	String num(BigInteger v) { // a numeral, decimal or hexadecimal
		if (g.nextBoolean()) return v.toString();
		String h = v.abs().toString(16); if (g.nextBoolean()) h = h.toUpperCase(); return (v.signum() < 0 ? "-" : "") + "0x" + h;
	}
	String num2() { return "[" + num(fp()) + "," + num(fp()) + "]"; }
	String num12() { StringBuilder s = new StringBuilder("["); for (int i = 0; i < 2; i++) { if (i > 0) s.append(g.nextBoolean() ? "," : ", "); s.append("["); for (int j = 0; j < 3; j++) { if (j > 0) s.append(","); s.append(num2()); } s.append("]"); } return s.append("]").toString(); }
	String badNum() {
		String v = big(150).add(b(10)).toString(); if (v.length() > 50) v = v.substring(0, 50); int k = g.nextInt(v.length()); // below the modulus in either base
		switch (g.nextInt(8)) {
		case 0: return ""; case 1: return "0x"; case 2: return v.substring(0, k) + "xyz!+_".charAt(g.nextInt(6)) + v.substring(k); case 3: return "0x" + v + "g"; case 4: return v + "-"; case 5: return "+-" + v;
		case 6: return v + "\u0000"; default: return v.substring(0, k) + "\u00e9" + v.substring(k);
		}
	}
	String badNumZ() { String s = badNum(); return s.equals("0x") ? "0xg" : s; } // GMP reads 0x as zero
	String badNum2() {
		String x = num(fp()), y = num(fp());
		switch (g.nextInt(9)) {
		case 0: return "[" + x + "," + y; case 1: return x + "," + y + "]"; case 2: return "[" + x + " " + y + "]"; case 3: return "[" + x + "," + badNum() + "]"; case 4: return "[" + badNum() + "," + y + "]";
		case 5: return ""; case 6: return "[" + x + "]"; case 7: return "(" + x + "," + y + ")"; default: return "[" + x + ";" + y + "]";
		}
	}
	String badNum12() {
		String s = num12(); int k;
		switch (g.nextInt(6)) {
		case 0: return s.substring(0, s.length() - 1); case 1: return s.substring(1); case 2: return ""; case 3: k = s.indexOf(','); return s.substring(0, k) + ";" + s.substring(k + 1);
		case 4: k = s.lastIndexOf("]]]"); return s.substring(0, k) + "]]" ; default: return "[" + badNum2() + "]";
		}
	}
	BigInteger[] pt() { // a point of y^2 = x^3 + 2
		for (;;) { BigInteger x = fp(), s = x.pow(3).add(b(2)).mod(p), y = s.modPow(p.add(b(1)).shiftRight(2), p); if (y.multiply(y).mod(p).equals(s)) return new BigInteger[] { x, g.nextBoolean() ? y : p.subtract(y).mod(p) }; }
	}
	static final String[][] TW = { // points of the twist; the second one is outside the subgroup of order r
		{ "1080951464861835177978502553920543268883142169428199124157801111089446205421", "11901819926584091020913294979371727170419152073138710249494239639590839701509", "7551614532583515915293031925011789425255368566893577144607818068182282757852", "6099752057758771451361227608187511605993158236939911334868214315616464050529" },
		{ "4365127793537077356339924300507855367631725181665388330370521666189057098778", "14372098067479991931669232442027976878169532508374055860528840370895304958624", "6802796325368321316969025292120945874604609294182650562022535702087777390268", "8250917661611571613739106829672659721812997288753624578493577714952725939419" } };

	String goodPt() { BigInteger[] q = pt(); return g.nextInt(6) == 0 ? "0" : num(q[0]) + "_" + num(q[1]); }
	String goodPt2() { String[] q = TW[g.nextInt(2)]; return g.nextInt(6) == 0 ? "0" : "[" + q[0] + "," + q[1] + "]_[" + q[2] + "," + q[3] + "]"; }
	String badPt() { BigInteger[] q = pt(); String s; switch (g.nextInt(6)) { case 0: s = num(q[0]); return s.matches("-?0") ? "5" : s; case 1: return num(q[0]) + "_"; case 2: return "_" + num(q[1]); case 3: return badNum().replace("_", "!") + "_" + num(q[1]); case 4: return num(q[0]) + "_" + num(q[1].add(b(q[1].add(q[1]).add(b(1)).mod(p).signum() == 0 ? 2 : 1)).mod(p)); default: return num(q[0]) + "_" + num(q[1]) + "_1"; } }
	String badPt2() { String[] q = TW[g.nextInt(2)]; String x = "[" + q[0] + "," + q[1] + "]", y = "[" + q[2] + "," + q[3] + "]"; switch (g.nextInt(5)) { case 0: return x; case 1: return x + "_"; case 2: return badNum2().replace("_", "!") + "_" + y; case 3: return x + "_" + x; default: return x + "_[" + q[3] + "," + q[2] + "]"; } }

	// ---- fresh objects
	int id() { return next++; }
	Obj fresh(char t) {
		final Object[] o = new Object[1]; final int n = id(); boolean ok = true; String w;
		switch (t) {
		case 'Z': { BigInteger v = g.nextInt(3) == 0 ? big(600).negate() : big(600); int i = g.nextInt(6) == 0 ? Integer.MIN_VALUE + g.nextInt(2) : g.nextInt(4) == 0 ? g.nextInt(7) - 3 : g.nextInt();
			switch (g.nextInt(4)) { case 0: act("new Z\t" + n + "\tint\t" + i, () -> { o[0] = new Mpz(i); return null; }); break; case 1: act("new Z\t" + n + "\tempty", () -> { o[0] = new Mpz(); return null; }); break; default: { String s = num(v); act("new Z\t" + n + "\tstr\t" + s, () -> { o[0] = new Mpz(s); return null; }); } } break; }
		case 'F': { int i = g.nextInt(4) == 0 ? Integer.MIN_VALUE + g.nextInt(2) : g.nextInt(3) == 0 ? g.nextInt(7) - 3 : g.nextInt(); String s = num(fp());
			if (g.nextInt(3) == 0) act("new F\t" + n + "\tint\t" + i, () -> { o[0] = new Fp(i); return null; }); else act("new F\t" + n + "\tstr\t" + s, () -> { o[0] = new Fp(s); return null; }); break; }
		case '2': { int i = g.nextInt(), j = g.nextInt(100) - 50; String s = num(fp()), u = num(fp());
			if (g.nextInt(5) == 0) { String v = num2(); act("new 2\t" + n + "\tstr\t" + v, () -> { o[0] = new Fp2(v); return null; }); break; }
			switch (g.nextInt(5)) { case 0: act("new 2\t" + n + "\tint\t" + i, () -> { o[0] = new Fp2(i); return null; }); break; case 1: act("new 2\t" + n + "\tint2\t" + i + "\t" + j, () -> { o[0] = new Fp2(i, j); return null; }); break;
			case 2: if (of('F').size() > 1) { Obj x = pick('F'), y = pick('F'); act("new 2\t" + n + "\tfp2\t" + x.id + "\t" + y.id, () -> { o[0] = new Fp2((Fp)x.o, (Fp)y.o); return null; }); break; }
			default: act("new 2\t" + n + "\tstr2\t" + s + "\t" + u, () -> { o[0] = new Fp2(s, u); return null; }); } break; }
		case 'T': { if (g.nextBoolean()) { String v = num12(); act("new T\t" + n + "\tstr\t" + v, () -> { o[0] = new Fp12(v); return null; }); break; }
			int i = g.nextInt(5) == 0 ? g.nextInt() : g.nextInt(7) - 3; act("new T\t" + n + "\tint\t" + i, () -> { o[0] = new Fp12(i); return null; }); break; }
		case 'P': { if (g.nextInt(4) == 0) { String v = goodPt(); act("new P\t" + n + "\tstr\t" + v, () -> { o[0] = new Ec1(v); return null; }); break; }
			if (g.nextInt(8) == 0) { act("new P\t" + n + "\tempty", () -> { o[0] = new Ec1(); return null; }); break; }
			BigInteger[] q = pt(); BigInteger s = g.nextInt(3) == 0 ? fp().max(b(1)) : b(1), s2 = s.multiply(s).mod(p), s3 = s2.multiply(s).mod(p); Obj x = mk('F', q[0].multiply(s2).mod(p).toString()), y = mk('F', q[1].multiply(s3).mod(p).toString()), w3 = mk('F', s.toString());
			if (s.equals(b(1)) && g.nextBoolean()) act("new P\t" + n + "\txy\t" + x.id + "\t" + y.id, () -> { o[0] = new Ec1((Fp)x.o, (Fp)y.o); return null; }); else act("new P\t" + n + "\txyz\t" + x.id + "\t" + y.id + "\t" + w3.id, () -> { o[0] = new Ec1((Fp)x.o, (Fp)y.o, (Fp)w3.o); return null; }); break; }
		default: { if (g.nextInt(4) == 0) { String v = goodPt2(); act("new Q\t" + n + "\tstr\t" + v, () -> { o[0] = new Ec2(v); return null; }); break; }
			if (g.nextInt(8) == 0) { act("new Q\t" + n + "\tempty", () -> { o[0] = new Ec2(); return null; }); break; }
			String[] q = TW[g.nextInt(3) / 2]; Obj x = mk2(q[0], q[1]), y = mk2(q[2], q[3]), w3 = mk2("1", "0");
			if (g.nextInt(3) == 0) { Obj s = mk2(num(fp().max(b(1))), num(fp())); for (int k = 0; k < 3; k++) { if (k < 2) bin(x, "mul", s); bin(y, "mul", s); } bin(w3, "mul", s); }
			if (g.nextBoolean()) act("new Q\t" + n + "\txyz\t" + x.id + "\t" + y.id + "\t" + w3.id, () -> { o[0] = new Ec2((Fp2)x.o, (Fp2)y.o, (Fp2)w3.o); return null; }); else { Obj a = mk2(q[0], q[1]), c = mk2(q[2], q[3]); act("new Q\t" + n + "\txy\t" + a.id + "\t" + c.id, () -> { o[0] = new Ec2((Fp2)a.o, (Fp2)c.o); return null; }); } }
		}
		if (o[0] == null) { log.println("note\tno object\t" + n); return mkZero(t); }
		Obj x = new Obj(n, t, o[0]); keep(x); return x;
	}
	Obj mkZero(char t) { Obj x = null; final int n = id(); final Object[] o = new Object[1]; act("new " + t + "\t" + n + "\t" + (t == 'P' || t == 'Q' || t == 'Z' ? "empty" : "int\t0"), () -> { switch (t) { case 'Z': o[0] = new Mpz(); break; case 'F': o[0] = new Fp(0); break; case '2': o[0] = new Fp2(0); break; case 'T': o[0] = new Fp12(0); break; case 'P': o[0] = new Ec1(); break; default: o[0] = new Ec2(); } return null; }); x = new Obj(n, t, o[0]); keep(x); return x; }
	Obj mk(char t, String s) { final int n = id(); final Object[] o = new Object[1]; act("new F\t" + n + "\tstr\t" + s, () -> { o[0] = new Fp(s); return null; }); return new Obj(n, 'F', o[0]); }
	Obj mk2(String a, String c) { final int n = id(); final Object[] o = new Object[1]; act("new 2\t" + n + "\tstr2\t" + a + "\t" + c, () -> { o[0] = new Fp2(a, c); return null; }); return new Obj(n, '2', o[0]); }
	Obj copy(Obj x) { final int n = id(); final Object[] o = new Object[1];
		act("new " + x.t + "\t" + n + "\tcopy\t" + x.id, () -> { switch (x.t) { case 'Z': o[0] = new Mpz((Mpz)x.o); break; case 'F': o[0] = new Fp((Fp)x.o); break; case '2': o[0] = new Fp2((Fp2)x.o); break; case 'T': o[0] = new Fp12((Fp12)x.o); break; case 'P': o[0] = new Ec1((Ec1)x.o); break; default: o[0] = new Ec2((Ec2)x.o); } return null; });
		return new Obj(n, x.t, o[0]); }

	// ---- operations
	void text(Obj x) { act("text\t" + x.id, () -> x.o.toString()); }
	void bin(Obj x, String op, Obj y) {
		act(op + "\t" + x.id + "\t" + y.id, () -> {
			switch (x.t) {
			case 'Z': { Mpz a = (Mpz)x.o, c = (Mpz)y.o; switch (op) { case "add": a.add(c); break; case "sub": a.sub(c); break; case "mul": a.mul(c); break; default: a.mod(c); } break; }
			case 'F': { Fp a = (Fp)x.o; switch (op) { case "add": a.add((Fp)y.o); break; case "sub": a.sub((Fp)y.o); break; case "mul": a.mul((Fp)y.o); break; default: a.power((Mpz)y.o); } break; }
			case '2': { Fp2 a = (Fp2)x.o; switch (op) { case "add": a.add((Fp2)y.o); break; case "sub": a.sub((Fp2)y.o); break; case "mul": a.mul((Fp2)y.o); break; default: a.power((Mpz)y.o); } break; }
			case 'T': { Fp12 a = (Fp12)x.o; switch (op) { case "add": a.add((Fp12)y.o); break; case "sub": a.sub((Fp12)y.o); break; case "mul": a.mul((Fp12)y.o); break; default: a.power((Mpz)y.o); } break; }
			case 'P': { Ec1 a = (Ec1)x.o; switch (op) { case "add": a.add((Ec1)y.o); break; case "sub": a.sub((Ec1)y.o); break; default: a.mul((Mpz)y.o); } break; }
			default: { Ec2 a = (Ec2)x.o; switch (op) { case "add": a.add((Ec2)y.o); break; case "sub": a.sub((Ec2)y.o); break; default: a.mul((Mpz)y.o); } break; }
			} return null; });
	}
	Obj part(Obj x, String which, char t) { // a proxy of a component
		final int n = id(); final Object[] o = new Object[1];
		act("part\t" + n + "\t" + x.id + "\t" + which, () -> { switch (x.t) { case '2': o[0] = which.equals("A") ? ((Fp2)x.o).getA() : ((Fp2)x.o).getB(); break; case 'P': o[0] = which.equals("X") ? ((Ec1)x.o).getX() : which.equals("Y") ? ((Ec1)x.o).getY() : ((Ec1)x.o).getZ(); break; default: o[0] = which.equals("X") ? ((Ec2)x.o).getX() : which.equals("Y") ? ((Ec2)x.o).getY() : ((Ec2)x.o).getZ(); } return null; });
		return new Obj(n, t, o[0]);
	}
	void raw(Obj x) { // all three coordinates as they are
		act("raw\t" + x.id, () -> x.t == 'P' ? ((Ec1)x.o).getX().toString() + " " + ((Ec1)x.o).getY().toString() + " " + ((Ec1)x.o).getZ().toString() : ((Ec2)x.o).getX().toString() + " " + ((Ec2)x.o).getY().toString() + " " + ((Ec2)x.o).getZ().toString());
	}
	void set(Obj x, String kind, String s, boolean good) { // text
		String w = "set" + (good ? "" : "bad") + "\t" + x.id + "\t" + kind + "\t" + esc(s);
		boolean ok = act(w, () -> { switch (x.t) { case 'Z': ((Mpz)x.o).set(s); break; case 'F': ((Fp)x.o).set(s); break; case '2': ((Fp2)x.o).set(s); break; case 'T': ((Fp12)x.o).set(s); break; case 'P': ((Ec1)x.o).set(s); break; default: ((Ec2)x.o).set(s); } return null; });
		if (!good || !ok) reset(x);
	}
	void reset(Obj x) { // after a failed call the object gets a defined value again
		switch (x.t) { case 'Z': act("seti\t" + x.id + "\t7", () -> { ((Mpz)x.o).set(7); return null; }); break; case 'F': act("seti\t" + x.id + "\t7", () -> { ((Fp)x.o).set(7); return null; }); break; case '2': set(x, "str", "[1,2]", true); break; case 'T': set(x, "str", "[[[1,2],[3,4],[5,6]],[[7,8],[9,10],[11,12]]]", true); break;
		case 'P': act("clear\t" + x.id, () -> { ((Ec1)x.o).clear(); return null; }); break; default: act("clear\t" + x.id, () -> { ((Ec2)x.o).clear(); return null; }); }
	}
	void un(Obj x, String op) { act(op + "\t" + x.id, () -> { if (x.t == 'P') { Ec1 a = (Ec1)x.o; switch (op) { case "dbl": a.dbl(); break; case "neg": a.neg(); break; case "clear": a.clear(); break; case "isZero": return a.isZero(); default: return a.isValid(); } } else { Ec2 a = (Ec2)x.o; switch (op) { case "dbl": a.dbl(); break; case "neg": a.neg(); break; case "clear": a.clear(); break; case "isZero": return a.isZero(); default: return a.isValid(); } } return null; }); }
	void eq(Obj x, Obj y) { act("equals\t" + x.id + "\t" + y.id, () -> { switch (x.t) { case 'Z': return ((Mpz)x.o).equals((Mpz)y.o) + " " + x.o.equals((Object)y.o); case 'F': return ((Fp)x.o).equals((Fp)y.o) + " " + x.o.equals((Object)y.o); case '2': return ((Fp2)x.o).equals((Fp2)y.o) + " " + x.o.equals((Object)y.o); case 'T': return ((Fp12)x.o).equals((Fp12)y.o) + " " + x.o.equals((Object)y.o); case 'P': return ((Ec1)x.o).equals((Ec1)y.o) + " " + x.o.equals((Object)y.o); default: return ((Ec2)x.o).equals((Ec2)y.o) + " " + x.o.equals((Object)y.o); } }); }
	void badCall() { // calls that have to end in an exception
		switch (g.nextInt(15)) {
		case 0: { String s = g.nextInt(20) == 0 ? null : badNumZ(); act("newbad\tZ\t" + esc(s), () -> new Mpz(s).toString()); break; }
		case 1: { String s = badNum(); act("newbad\tF\t" + esc(s), () -> new Fp(s).toString()); break; }
		case 2: { String s = badNum(), u = num(fp()); boolean w = g.nextBoolean(); act("newbad\t2\t" + esc(s) + "\t" + w, () -> (w ? new Fp2(s, u) : new Fp2(u, s)).toString()); break; }
		case 3: set(pick('Z'), "str", badNumZ(), false); break; case 4: set(pick('F'), "str", badNum(), false); break; case 5: set(pick('2'), "str", badNum2(), false); break; case 6: set(pick('T'), "str", badNum12(), false); break;
		case 7: set(pick('P'), "str", badPt(), false); break; case 8: set(pick('Q'), "str", badPt2(), false); break;
		case 9: { Obj x = pick('P'); BigInteger[] q = pt(); Obj a = mk('F', q[0].toString()), c = mk('F', q[1].add(b(1 + g.nextInt(9))).mod(p).toString()), w = mk('F', b(2).toString()); boolean three = g.nextBoolean(), ctor = g.nextBoolean();
			if (ctor) act("off\t-1\t" + a.id + "\t" + c.id + "\t" + (three ? w.id : -1), () -> { if (three) sink = new Ec1((Fp)a.o, (Fp)c.o, (Fp)w.o); else sink = new Ec1((Fp)a.o, (Fp)c.o); return null; });
			else { act("off\t" + x.id + "\t" + a.id + "\t" + c.id + "\t" + (three ? w.id : -1), () -> { if (three) ((Ec1)x.o).set((Fp)a.o, (Fp)c.o, (Fp)w.o); else ((Ec1)x.o).set((Fp)a.o, (Fp)c.o); return null; }); reset(x); } break; }
		case 10: { Obj x = pick('Q'); String[] q = TW[g.nextInt(2)]; Obj a = mk2(q[0], q[1]), c = mk2(q[2], num(fp())), w = mk2("0", "1"); boolean three = g.nextBoolean(), ctor = g.nextBoolean();
			if (ctor) act("off\t-1\t" + a.id + "\t" + c.id + "\t" + (three ? w.id : -1), () -> { if (three) sink = new Ec2((Fp2)a.o, (Fp2)c.o, (Fp2)w.o); else sink = new Ec2((Fp2)a.o, (Fp2)c.o); return null; });
			else { act("off\t" + x.id + "\t" + a.id + "\t" + c.id + "\t" + (three ? w.id : -1), () -> { if (three) ((Ec2)x.o).set((Fp2)a.o, (Fp2)c.o, (Fp2)w.o); else ((Ec2)x.o).set((Fp2)a.o, (Fp2)c.o); return null; }); reset(x); } break; }
		case 13: { String s = badNum2(), u = badNum12(); boolean w = g.nextBoolean(); act("newbad\t" + (w ? "2" : "T") + "\t" + esc(w ? s : u), () -> (w ? new Fp2(s) : new Fp12(u)).toString()); break; }
		case 14: { String s = badPt(), u = badPt2(); boolean w = g.nextBoolean(); act("newbad\t" + (w ? "P" : "Q") + "\t" + esc(w ? s : u), () -> (w ? new Ec1(s) : new Ec2(u)).toString()); break; }
		case 11: { final int n = id(); Obj x = pick('Z'); final Object[] o = new Object[1]; act("new Z\t" + n + "\tint\t0", () -> { o[0] = new Mpz(0); return null; }); Obj zr = new Obj(n, 'Z', o[0]); bin(x, "mod", zr); text(zr); reset(x); break; }
		default: { Obj x = g.nextInt(3) == 0 ? pick('T') : g.nextBoolean() ? pick('F') : pick('2'); String s = big(64).add(b(1)).negate().toString(); final int n = id(); final Object[] o = new Object[1]; act("new Z\t" + n + "\tstr\t" + s, () -> { o[0] = new Mpz(s); return null; }); bin(x, "power", new Obj(n, 'Z', o[0])); reset(x); }
		}
	}
	void proxies() {
		if (g.nextBoolean()) {
			Obj x = pick('2'); Obj a = part(x, "A", 'F'), c = part(x, "B", 'F'), a2 = part(x, "A", 'F'); text(a); text(c);
			switch (g.nextInt(6)) { case 0: bin(a, "mul", c); break; case 1: bin(c, "add", a2); break; case 2: bin(a, "add", a2); break; case 3: act("seti\t" + a.id + "\t-3", () -> { ((Fp)a.o).set(-3); return null; }); break; case 4: set(c, "str", num(fp()), true); break; default: bin(a, "sub", pick('F')); }
			text(x); text(a2); Obj n = copy(x); text(n); a.parent = x; if (g.nextInt(4) == 0) keep(a);
			return;
		}
		char t = g.nextBoolean() ? 'P' : 'Q', ft = t == 'P' ? 'F' : '2'; Obj e = copy(pick(t)); raw(e); Obj x = part(e, "X", ft), y = part(e, "Y", ft), w = part(e, "Z", ft); text(x); text(y); text(w);
		if (g.nextInt(3) > 0) { // the same point in another representation
			Obj s = t == 'P' ? mk('F', num(fp().max(b(1)))) : mk2(num(fp().max(b(1))), num(fp())); bin(x, "mul", s); bin(x, "mul", s); bin(y, "mul", s); bin(y, "mul", s); bin(y, "mul", s); bin(w, "mul", s); raw(e); un(e, "isValid"); Obj f = copy(e); un(f, "dbl"); text(f); text(e); raw(e); text(w);
		} else { bin(y, "add", t == 'P' ? pick('F') : pick('2')); raw(e); un(e, "isValid"); text(y); } // usually off the curve
	}
	void garbage() { // parents without references, small heap, finalisers
		List<Obj> ps = new ArrayList<>();
		for (int i = 0; i < 20; i++) { switch (g.nextInt(3)) { case 0: { Obj x = mk2(num(fp()), num(fp())); ps.add(part(x, g.nextBoolean() ? "A" : "B", 'F')); break; } case 1: { Obj e = copy(pick('P')); raw(e); ps.add(part(e, g.nextBoolean() ? "X" : "Y", 'F')); break; } default: { Obj e = copy(pick('Q')); raw(e); Obj x = part(e, g.nextBoolean() ? "X" : "Y", '2'); ps.add(x); ps.add(part(x, "B", 'F')); } } }
		System.gc(); System.runFinalization(); System.gc(); System.runFinalization();
		for (int i = 0; i < 200; i++) { sink = new Fp2(i, -i); sink = new Ec1(); sink = new Fp12(i); sink = new Ec2(); }
		log.println("note\tgc");
		for (Obj x : ps) { text(x); if (g.nextInt(3) == 0) { bin(x, "add", x); text(x); } }
		for (int k = 0; k < pool.size(); k++) for (Obj x : pool.get(k)) text(x);
	}
	void step() {
		int k = g.nextInt(100);
		if (k < 6) { fresh(TYPES.charAt(g.nextInt(6))); return; }
		if (k < 12) { badCall(); return; }
		if (k < 16) { proxies(); return; }
		if (k < 19) { Obj x = pick(TYPES.charAt(g.nextInt(6))), y = copy(x); eq(x, y); text(y); keep(y); return; }
		if (k < 24) { char t = TYPES.charAt(g.nextInt(6)); eq(pick(t), pick(t)); if (t == 'Z') { Obj x = pick('Z'), y = pick('Z'); act("compareTo\t" + x.id + "\t" + y.id, () -> ((Mpz)x.o).compareTo((Mpz)y.o)); } return; }
		if (k < 30) { // text in
			switch (g.nextInt(6)) { case 0: set(pick('Z'), "str", num(g.nextBoolean() ? big(700) : big(700).negate()), true); break; case 1: set(pick('F'), "str", num(fp()), true); break; case 2: set(pick('2'), "str", num2(), true); break; case 3: set(pick('T'), "str", num12(), true); break;
			case 4: set(pick('P'), "str", goodPt(), true); break; default: set(pick('Q'), "str", goodPt2(), true); } return; }
		if (k < 34) { // text out and in again
			Obj x = pick(TYPES.charAt(g.nextInt(6))), y = pick(x.t); if (x.parent != null || y.parent != null) return; final String[] s = new String[1]; act("text\t" + x.id, () -> s[0] = x.o.toString()); if (s[0] != null) set(y, "str", s[0], true); return; }
		if (k < 37) { Obj x = pick("ZF2T".charAt(g.nextInt(4))); int i = g.nextInt(3) == 0 ? Integer.MIN_VALUE : g.nextInt(3) == 0 ? g.nextInt(5) - 2 : g.nextInt(); act("seti\t" + x.id + "\t" + i, () -> { if (x.t == 'Z') ((Mpz)x.o).set(i); else if (x.t == 'F') ((Fp)x.o).set(i); else if (x.t == '2') ((Fp2)x.o).set(i); else ((Fp12)x.o).set(i); return null; }); text(x); return; }
		if (k < 39) { final int n = id(); final Object[] o = new Object[1]; act("order\t" + n, () -> { o[0] = BN254.GetParamR(); return null; }); Obj x = new Obj(n, 'Z', o[0]); text(x); bin(x, g.nextBoolean() ? "sub" : "mul", pick('Z')); text(x); if (g.nextBoolean()) keep(x); final int m = id(); act("order\t" + m, () -> { o[0] = BN254.GetParamR(); return null; }); text(new Obj(m, 'Z', o[0])); return; }
		if (k < 43) { Obj e = pick('T'); act("pairing\t" + e.id + "\t" + (q = pick('Q')).id + "\t" + (q1 = pick('P')).id, () -> { ((Fp12)e.o).pairing((Ec2)q.o, (Ec1)q1.o); return null; }); text(e); text(q); text(q1); return; }
		if (k < 47) { Obj x = pick(g.nextBoolean() ? 'P' : 'Q'); un(x, new String[] { "dbl", "neg", "isZero", "isValid", "clear", "dbl", "neg" }[g.nextInt(7)]); if (g.nextBoolean()) text(x); return; }
		if (k < 50) { char t = g.nextBoolean() ? 'P' : 'Q'; Obj x = pick(t), y = copy(pick(t)); raw(y); Obj a = part(y, "X", t == 'P' ? 'F' : '2'), c = part(y, "Y", t == 'P' ? 'F' : '2'), w = part(y, "Z", t == 'P' ? 'F' : '2'); // coordinates of another point, as live parts
			act("setxyz\t" + x.id + "\t" + a.id + "\t" + c.id + "\t" + w.id, () -> { if (t == 'P') ((Ec1)x.o).set((Fp)a.o, (Fp)c.o, (Fp)w.o); else ((Ec2)x.o).set((Fp2)a.o, (Fp2)c.o, (Fp2)w.o); return null; }); text(x); text(y); return; }
		char t = TYPES.charAt(g.nextInt(6)); Obj x = pick(t), y = pick(t); if (g.nextInt(8) == 0) y = x; // the receiver itself
		switch (t) {
		case 'Z': if (tooLong(x) || tooLong(y)) { reset(x); return; } bin(x, new String[] { "add", "sub", "mul", "mod" }[g.nextInt(4)], y); break;
		case 'F': case '2': if (g.nextInt(5) == 0) bin(x, "power", expo()); else bin(x, new String[] { "add", "sub", "mul" }[g.nextInt(3)], y); break;
		case 'T': if (g.nextInt(12) == 0) bin(x, "power", expo()); else bin(x, new String[] { "add", "sub", "mul" }[g.nextInt(3)], y); break;
		default: if (g.nextInt(5) == 0) { Obj n = pick('Z'); if (tooLong(n)) return; bin(x, "mul", n); } else bin(x, g.nextBoolean() ? "add" : "sub", y); }
		text(x); if (g.nextInt(3) == 0) text(y);
	}
	Obj q, q1;
	boolean tooLong(Obj x) { return ((Mpz)x.o).toString().length() > 300; }
	Obj expo() { Obj e = pick('Z'); String s = ((Mpz)e.o).toString(); if (s.startsWith("-") || s.length() > 160) { final int n = id(); final Object[] o = new Object[1]; String v = num(big(300)); act("new Z\t" + n + "\tstr\t" + v, () -> { o[0] = new Mpz(v); return null; }); return new Obj(n, 'Z', o[0]); } return e; }
	void go(int steps) {
		for (int i = 0; i < 6; i++) for (int j = 0; j < 4; j++) fresh(TYPES.charAt(i));
		for (int i = 0; i < steps; i++) { step(); if (i % 50 == 49) for (List<Obj> l : pool) for (Obj x : l) text(x); if (gcEvery > 0 && i % gcEvery == gcEvery - 1) garbage(); }
		log.println("END\t" + steps); log.close();
	}
	public static void main(String[] a) throws Exception {
		System.loadLibrary("bn254_if_wrap"); BN254.SystemInit();
		final long seed = Long.parseLong(a[1]); final int steps = Integer.parseInt(a[2]), threads = Integer.parseInt(a[3]), gc = Integer.parseInt(a[4]);
		Thread[] ts = new Thread[threads];
		for (int i = 0; i < threads; i++) { final int k = i; ts[i] = new Thread(() -> { try { new Drive(a[0] + "." + k, seed * 1000 + k, gc).go(steps); } catch (Throwable e) { e.printStackTrace(); System.exit(70); } }); ts[i].start(); }
		for (Thread t : ts) t.join();
		System.out.println("DONE");
	}
}
