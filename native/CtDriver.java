import java.io.*;
import java.lang.reflect.*;
import java.nio.file.*;
import java.util.*;
import jdk.internal.org.objectweb.asm.*;
import jdk.internal.org.objectweb.asm.tree.*;

/* Runs operations of the library with every conditional jump, switch, array access and array size recorded.
   Argument: the directory of the compiled library. Input: one operation per line, "Class.method" and its arguments:
   a hexadecimal word sequence for int[], "#hash" for Sha256Hash, "i<number>" for int. Output: count and hash of the record. */
public final class CtDriver {
	public static final class Trace {
		static long n, h;
		public static void val(int v) { n++; h = (h ^ v) * 1099511628211L; h ^= h >>> 29; }
		public static void access(Object a, int i) { val(a == null ? -1 : Array.getLength(a)); val(i); }
		public static void arraycopy(Object a, int i, Object b, int j, int k) { access(a, i); access(b, j); val(k); System.arraycopy(a, i, b, j, k); }
		public static boolean equals(int[] a, int[] b) { int i = 0; while (a != null && b != null && i < a.length && i < b.length && a[i] == b[i]) i++; val(i); return Arrays.equals(a, b); }
		public static boolean equals(byte[] a, byte[] b) { int i = 0; while (a != null && b != null && i < a.length && i < b.length && a[i] == b[i]) i++; val(i); return Arrays.equals(a, b); }
		static void reset() { n = 0; h = 1469598103934665603L; }
	}

	static byte[] instrument(byte[] in) {
		ClassNode cn = new ClassNode();
		new ClassReader(in).accept(cn, 0);
		String T = "CtDriver$Trace";
		int id = 1000000;
		for (MethodNode m : cn.methods) {
			for (AbstractInsnNode x : m.instructions.toArray()) {
				int op = x.getOpcode();
				InsnList pre = new InsnList();
				if (x instanceof JumpInsnNode && op != Opcodes.GOTO && op != Opcodes.JSR) {
					InsnList post = new InsnList();
					post.add(new LdcInsnNode(id++));
					post.add(new MethodInsnNode(Opcodes.INVOKESTATIC, T, "val", "(I)V", false));
					m.instructions.insert(x, post);
				} else if (x instanceof TableSwitchInsnNode || x instanceof LookupSwitchInsnNode || op == Opcodes.NEWARRAY || op == Opcodes.ANEWARRAY) {
					pre.add(new InsnNode(Opcodes.DUP));
					pre.add(new MethodInsnNode(Opcodes.INVOKESTATIC, T, "val", "(I)V", false));
				} else if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD) {
					pre.add(new InsnNode(Opcodes.DUP2));
					pre.add(new MethodInsnNode(Opcodes.INVOKESTATIC, T, "access", "(Ljava/lang/Object;I)V", false));
				} else if (op == Opcodes.LASTORE || op == Opcodes.DASTORE) {
					pre.add(new InsnNode(Opcodes.DUP2_X2));
					pre.add(new InsnNode(Opcodes.POP2));
					pre.add(new InsnNode(Opcodes.DUP2_X2));
					pre.add(new MethodInsnNode(Opcodes.INVOKESTATIC, T, "access", "(Ljava/lang/Object;I)V", false));
				} else if (op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) {
					pre.add(new InsnNode(Opcodes.DUP_X2));
					pre.add(new InsnNode(Opcodes.POP));
					pre.add(new InsnNode(Opcodes.DUP2_X1));
					pre.add(new MethodInsnNode(Opcodes.INVOKESTATIC, T, "access", "(Ljava/lang/Object;I)V", false));
				} else if (x instanceof MethodInsnNode) {
					MethodInsnNode c = (MethodInsnNode) x;
					if (c.owner.equals("java/lang/System") && c.name.equals("arraycopy")) c.owner = T;
					if (c.owner.equals("java/util/Arrays") && c.name.equals("equals") && (c.desc.equals("([I[I)Z") || c.desc.equals("([B[B)Z"))) c.owner = T;
				}
				if (pre.size() > 0)
					m.instructions.insertBefore(x, pre);
			}
		}
		ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
		cn.accept(w);
		return w.toByteArray();
	}

	static Class<?> load(String name) throws ClassNotFoundException { return Class.forName("io.nayuki.bitcoin.crypto." + name, true, loader); }
	static ClassLoader loader;

	public static void main(String[] args) throws Exception {
		final String dir = args[0];
		loader = new ClassLoader(CtDriver.class.getClassLoader()) {
			protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
				if (!name.startsWith("io.nayuki.")) return super.loadClass(name, resolve);
				synchronized (this) {
					Class<?> c = findLoadedClass(name);
					if (c != null) return c;
					try {
						byte[] b = instrument(Files.readAllBytes(Paths.get(dir, name.replace('.', '/') + ".class")));
						return defineClass(name, b, 0, b.length);
					} catch (IOException e) { throw new ClassNotFoundException(name); }
				}
			}
		};
		loader.setDefaultAssertionStatus(false);
		BufferedReader in = new BufferedReader(new InputStreamReader(System.in));
		for (String ln; (ln = in.readLine()) != null; ) {
			String r;
			try { run(ln); r = run(ln); }  // the first run initialises the classes
			catch (InvocationTargetException e) { r = "!" + e.getCause(); }
			catch (Exception e) { r = "!" + e; }
			System.out.println(r.replace('\n', ' '));
		}
	}

	static String run(String ln) throws Exception {
		String[] w = ln.trim().split(" ");
		int dot = w[0].indexOf('.');
		Class<?> c = load(w[0].substring(0, dot));
		Trace.reset();
		Object[] a = new Object[w.length - 1];
		Class<?>[] t = new Class<?>[a.length];
		for (int i = 0; i < a.length; i++) {
			String s = w[i + 1];
			if (s.startsWith("i")) { a[i] = Integer.valueOf(s.substring(1)); t[i] = int.class; }
			else if (s.startsWith("#")) {
				byte[] b = new byte[32];
				for (int j = 0; j < 32; j++) b[j] = (byte) Integer.parseInt(s.substring(1 + 2 * j, 3 + 2 * j), 16);
				a[i] = load("Sha256Hash").getConstructor(byte[].class).newInstance((Object) b);
				t[i] = load("Sha256Hash");
			} else {
				int[] v = new int[s.length() / 8];
				for (int j = 0; j < v.length; j++) v[j] = (int) Long.parseLong(s.substring(8 * j, 8 * j + 8), 16);
				a[i] = v; t[i] = int[].class;
			}
		}
		Object self = null;
		if (a.length > 0 && t[0] == c) {  // a method of the object
			self = a[0];
			a = Arrays.copyOfRange(a, 1, a.length);
			t = Arrays.copyOfRange(t, 1, t.length);
		}
		Method m = c.getDeclaredMethod(w[0].substring(dot + 1), t);
		m.setAccessible(true);
		Object r = m.invoke(self, a);
		return (r instanceof Boolean && !(Boolean) r ? "!false " : "") + Trace.n + " " + Long.toHexString(Trace.h);
	}
}
