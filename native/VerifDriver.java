// Replay driver: runs the real Java library on concrete inputs. One command per line, one result line per command.
package io.nayuki.bitcoin.crypto;

import java.io.*;
import java.util.*;

public final class VerifDriver {

	private static byte[] bytes(String s) {
		if (s.equals("-")) return new byte[0];
		byte[] r = new byte[s.length() / 2];
		for (int i = 0; i < r.length; i++) r[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
		return r;
	}

	private static String hex(byte[] b) {
		StringBuilder sb = new StringBuilder();
		for (byte x : b) { sb.append(Character.forDigit((x >>> 4) & 15, 16)); sb.append(Character.forDigit(x & 15, 16)); }
		return sb.length() == 0 ? "-" : sb.toString();
	}

	// 8 hex digits per int, in array order
	private static int[] words(String s) {
		if (s.equals("-")) return new int[0];
		int[] r = new int[s.length() / 8];
		for (int i = 0; i < r.length; i++) r[i] = (int)Long.parseLong(s.substring(8 * i, 8 * i + 8), 16);
		return r;
	}

	private static String words(int[] w) {
		StringBuilder sb = new StringBuilder();
		for (int x : w) for (int k = 28; k >= 0; k -= 4) sb.append(Character.forDigit((x >>> k) & 15, 16));
		return sb.length() == 0 ? "-" : sb.toString();
	}

	// strings: 4 hex digits per char
	private static String str(String s) {
		if (s.equals("-")) return "";
		StringBuilder sb = new StringBuilder();
		for (int i = 0; i < s.length(); i += 4) sb.append((char)Integer.parseInt(s.substring(i, i + 4), 16));
		return sb.toString();
	}

	private static String str2(String s) {
		StringBuilder sb = new StringBuilder();
		for (char c : s.toCharArray()) for (int k = 12; k >= 0; k -= 4) sb.append(Character.forDigit((c >>> k) & 15, 16));
		return sb.length() == 0 ? "-" : sb.toString();
	}

	private static int i(String s) { return (int)Long.parseLong(s, 16); }
	private static String n(int x) { return Integer.toHexString(x); }
	private static Sha256Hash h(String s) { return new Sha256Hash(bytes(s)); }

	private static String run(String[] t) throws Exception {
		String op = t[0];
		if (op.startsWith("I.") || op.startsWith("C.")) {
			int[] v = words(t[1]);
			int[] a = new int[6];
			for (int k = 2; k < t.length; k++) a[k - 2] = i(t[k]);
			int ret = 0;
			switch (op) {
				case "I.uintAdd": ret = Int256Math.uintAdd(v, a[0], a[1], a[2], a[3]); break;
				case "I.uintSubtract": ret = Int256Math.uintSubtract(v, a[0], a[1], a[2], a[3]); break;
				case "I.uintShiftLeft1": ret = Int256Math.uintShiftLeft1(v, a[0], a[1]); break;
				case "I.uintShiftRight1": Int256Math.uintShiftRight1(v, a[0], a[1], a[2]); break;
				case "I.reciprocal": Int256Math.reciprocal(v, a[0], a[1], a[2], a[3]); break;
				case "I.fieldAdd": Int256Math.fieldAdd(v, a[0], a[1], a[2], a[3]); break;
				case "I.fieldSubtract": Int256Math.fieldSubtract(v, a[0], a[1], a[2], a[3]); break;
				case "I.fieldMultiply2": Int256Math.fieldMultiply2(v, a[0], a[1], a[2]); break;
				case "I.fieldSquare": Int256Math.fieldSquare(v, a[0], a[1], a[2]); break;
				case "I.fieldMultiply": Int256Math.fieldMultiply(v, a[0], a[1], a[2], a[3]); break;
				case "I.copy": Int256Math.copy(v, a[0], v, a[1]); break;
				case "I.replace": Int256Math.replace(v, a[0], a[1], a[2]); break;
				case "I.swap": Int256Math.swap(v, a[0], a[1], a[2]); break;
				case "I.equalTo": ret = Int256Math.equalTo(v, a[0], a[1]); break;
				case "I.lessThan": ret = Int256Math.lessThan(v, a[0], a[1]); break;
				case "I.isZero": ret = Int256Math.isZero(v, a[0]); break;
				case "I.equalInt": ret = Int256Math.equalTo(a[0], a[1]); break;
				case "C.twice": CurvePointMath.twice(v, a[0], a[1]); break;
				case "C.add": CurvePointMath.add(v, a[0], a[1], a[2]); break;
				case "C.multiply": CurvePointMath.multiply(v, a[0], a[1], a[2]); break;
				case "C.normalize": CurvePointMath.normalize(v, a[0], a[1]); break;
				case "C.replace": CurvePointMath.replace(v, a[0], a[1], a[2]); break;
				case "C.isOnCurve": ret = CurvePointMath.isOnCurve(v, a[0], a[1]); break;
				case "C.isZero": ret = CurvePointMath.isZero(v, a[0]); break;
				default: return "?";
			}
			return n(ret) + " " + words(v);
		}
		switch (op) {
			case "I.none": return "";
			case "hexToUint": { int[] v = words(t[2]); Int256Math.hexToUint(str(t[1]), v, i(t[3])); return words(v); }
			case "uintToHex": return str2(Int256Math.uintToHex(words(t[1]), i(t[2])));
			case "uintToBytes": return hex(Int256Math.uintToBytes(words(t[1]), i(t[2])));
			case "bytesToUint": { int[] v = words(t[2]); Int256Math.bytesToUint(bytes(t[1]), v, i(t[3])); return words(v); }
			case "basePoint": { int[] g = CurvePointMath.getBasePoint(); String r = words(g); g[0]++; return r + " " + words(CurvePointMath.getBasePoint()); }
			case "k.const": if (t.length > 1) Class.forName("io.nayuki.bitcoin.crypto." + t[1]);  // initialise this class first
				return words(Int256Math.ZERO) + " " + words(Int256Math.ONE) + " " + words(Int256Math.FIELD_MODULUS) + " " + words(CurvePointMath.A) + " " + words(CurvePointMath.B)
				+ " " + words(CurvePointMath.ORDER) + " " + words(CurvePointMath.ZERO_POINT) + " " + words(CurvePointMath.BASE_POINT) + " " + str2(Base58Check.ALPHABET);
			case "e.sign": {
				int[] r = words("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), s = words("5555555555555555555555555555555555555555555555555555555555555555");
				int[] d = words(t[1]), k = words(t[3]);
				boolean ok = Ecdsa.sign(d, h(t[2]), k, r, s);
				return (ok ? "1 " : "0 ") + words(r) + " " + words(s) + " " + words(d) + " " + words(k);
			}
			case "e.signh": {
				int[] r = words("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), s = words("5555555555555555555555555555555555555555555555555555555555555555");
				int[] d = words(t[1]);
				boolean ok = Ecdsa.signWithHmacNonce(d, h(t[2]), r, s);
				return (ok ? "1 " : "0 ") + words(r) + " " + words(s) + " " + words(d);
			}
			case "e.verify": return Ecdsa.verify(words(t[1]), h(t[2]), words(t[3]), words(t[4])) ? "1" : "0";
			case "sha256": { byte[] m = bytes(t[1]); String r = hex(Sha256.getHash(m).toBytes()); return Arrays.equals(m, bytes(t[1])) ? r : "input-modified"; }
			case "sha256d": { byte[] m = bytes(t[1]); String r = hex(Sha256.getDoubleHash(m).toBytes()); return Arrays.equals(m, bytes(t[1])) ? r : "input-modified"; }
			case "sha512": { byte[] m = bytes(t[1]); String r = hex(Sha512.getHash(m)); return Arrays.equals(m, bytes(t[1])) ? r : "input-modified"; }
			case "rmd160": { byte[] m = bytes(t[1]); String r = hex(Ripemd160.getHash(m)); return Arrays.equals(m, bytes(t[1])) ? r : "input-modified"; }
			case "keccak": { byte[] m = bytes(t[1]); String r = hex(Keccak256.getHash(m)); return Arrays.equals(m, bytes(t[1])) ? r : "input-modified"; }
			case "rep": {  // algorithm, total length, byte: long messages
				byte[] m = new byte[i(t[2])];
				Arrays.fill(m, (byte)i(t[3]));
				switch (t[1]) {
					case "sha256": return hex(Sha256.getHash(m).toBytes());
					case "sha512": return hex(Sha512.getHash(m));
					case "rmd160": return hex(Ripemd160.getHash(m));
					case "keccak": return hex(Keccak256.getHash(m));
					default: return "?";
				}
			}
			case "hmac256": { byte[] k = bytes(t[1]), m = bytes(t[2]); String r = hex(Sha256.getHmac(k, m).toBytes()); return Arrays.equals(k, bytes(t[1])) && Arrays.equals(m, bytes(t[2])) ? r : "input-modified"; }
			case "hmac512": { byte[] k = bytes(t[1]), m = bytes(t[2]); String r = hex(Sha512.getHmac(k, m)); return Arrays.equals(k, bytes(t[1])) && Arrays.equals(m, bytes(t[2])) ? r : "input-modified"; }
			case "h.bytes": { byte[] b = bytes(t[1]); Sha256Hash x = new Sha256Hash(b); String r = hex(x.toBytes()); Arrays.fill(b, (byte)0x5C); x.toBytes()[3] ^= 1; Arrays.fill(x.toBytes(), (byte)0x77);
				return r + " " + hex(x.toBytes()); }
			case "h.str": return hex(new Sha256Hash(str(t[1])).toBytes());
			case "h.tostr": return str2(h(t[1]).toString());
			case "h.cmp": { Sha256Hash x = h(t[1]), y = h(t[2]); return (x.equals(y) ? "1 " : "0 ") + Integer.signum(x.compareTo(y)) + " " + n(x.hashCode()) + " " + n(y.hashCode()) + " " + (x.equals(null) ? 1 : 0) + " " + (x.equals("a") ? 1 : 0) + " " + (x.equals(x) ? 1 : 0); }
			case "b.enc": { byte[] m = bytes(t[1]); String r = str2(Base58Check.bytesToBase58(m)); return Arrays.equals(m, bytes(t[1])) ? r : "input-modified"; }
			case "b.rawenc": return str2(Base58Check.rawBytesToBase58(bytes(t[1])));
			case "b.dec": return hex(Base58Check.base58ToBytes(str(t[1])));
			case "b.rawdec": return hex(Base58Check.base58ToRawBytes(str(t[1])));
			case "c.enc": { byte[] m = bytes(t[2]); String r = str2(Bech32.bitGroupsToBech32(str(t[1]), m)); return Arrays.equals(m, bytes(t[2])) ? r : "input-modified"; }
			case "c.dec": { Object[] r = Bech32.bech32ToBitGroups(str(t[1])); return str2((String)r[0]) + " " + hex((byte[])r[1]); }
			case "c.segenc": { byte[] m = bytes(t[3]); String r = str2(Bech32.segwitToBech32(str(t[1]), i(t[2]), m)); return Arrays.equals(m, bytes(t[3])) ? r : "input-modified"; }
			case "c.segdec": { Object[] r = Bech32.bech32ToSegwit(str(t[1])); return str2((String)r[0]) + " " + n((Integer)r[1]) + " " + hex((byte[])r[2]); }
			default: return "?";
		}
	}

	public static void main(String[] args) throws Exception {
		BufferedReader in = new BufferedReader(new InputStreamReader(System.in));
		PrintStream out = System.out;
		for (String line; (line = in.readLine()) != null; ) {
			String r;
			try {
				r = run(line.trim().split(" +"));
			} catch (Throwable e) {
				r = "!" + e.getClass().getName();
			}
			out.println(r);
			out.flush();
		}
	}
}
