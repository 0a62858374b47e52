package vf;

/** The properties by id. */
final class Props {
  static Prop get(String id) {
    switch (id) {
      case "C01": return new P1.C01();
      case "C02": return new P1.C02();
      case "C03": return new P1.C03();
      case "C04": return new P1.C04();
      case "C05": return new P2.C05();
      case "C06": return new P3.C06();
      case "C07": return new P3.C07();
      case "C08": return new P1.C08();
      case "C09": return new P1.C09();
      case "C10": return new P1.C10();
      case "C11": return new P1.C11();
      case "C12": return new P1.C12();
      case "C13": return new P2.C13();
      case "C14": return new P2.C14();
      case "C15": return new P2.C15();
      case "C16": return new P2.C16();
      case "C17": return new P2.C17();
      case "C18": return new P2.C18();
      case "C19": return new P3.C19();
      case "C20": return new P3.C20();
      case "C21": return new P3.C21();
      case "C22": return new P1.C22();
      case "C23": return new P5.C23();
      case "TXT": return new P5.Txt();
      case "C25": return new P4.C25();
      case "C26": return new P4.C26();
      case "C27": return new P4.C27();
      case "C28": return new P6.C28();
      case "C29": return new P7.C29();
      default: return null;
    }
  }
}
