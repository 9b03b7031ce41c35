// Reads JSON strings, one per line; answers with the tree that implementations/styx-js makes of each.
import { createInterface } from "node:readline";
const { parse, ParseError } = await import(process.argv[2]);
const val = (v) => {
  const j = {};
  if (v.tag) j.g = v.tag.name;
  const p = v.payload;
  if (p) {
    if (p.type === "scalar") { j.s = p.text; j.k = p.kind; if (!v.tag && p.kind !== "heredoc") j.sp = [p.span?.start, p.span?.end]; }
    else if (p.type === "sequence") j.q = p.items.map(val);
    else if (p.type === "object") j.o = ents(p.entries);
    else j.odd = String(p.type);
  }
  return j;
};
const ents = (es) => es.map((e) => [val(e.key), val(e.value)]);
for await (const l of createInterface({ input: process.stdin, crlfDelay: Infinity })) {
  let r;
  try { r = { ok: ents(parse(JSON.parse(l)).entries) }; }
  catch (e) {
    if (e instanceof ParseError) r = { error: e.message, sp: [e.span.start, e.span.end] };
    else r = { crash: `${e?.name}: ${e?.message}`.slice(0, 300) };
  }
  process.stdout.write(JSON.stringify(r) + "\n");
}
