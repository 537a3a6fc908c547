# P29: the Ruby readers, writers and enumerators show exactly the index contents.
P29_RULE = "random field declarations, documents in every form the API takes (hashes, arrays, strings, Documents and Fields with boosts), ready-made and Ruby-written analyzers, writer options and deletions over 1 to 3 directories; then random reads through IndexReader (single, by path, over several directories), LazyDoc, TermEnum, TermDocEnum, TermVector, FieldInfos and their JSON forms are compared with a list of documents; non-trivial: at least two live documents and eight reads"
R_WORDS = %w[ant bee cat dog eel fox gnu hen ibis jay] + ["\u00e9t\u00e9", "na\u00efve", "\u6771\u4eac", 'a"b', 'c\\d', "e'f"]
class RubyTokenStream
  def initialize(text, gap) = (@gap = gap; self.text = text)
  def text=(t)
    @toks = []; b = t.b; i = 0
    b.scan(/[^ \t\n]+/n) { m = Regexp.last_match; @toks << [m[0].dup.force_encoding('UTF-8'), m.begin(0), m.end(0), @gap && i > 0 && i % 3 == 0 ? 2 : 1]; i += 1 }
    @i = -1; @text = t
  end
  attr_reader :text
  def next = (@i += 1; t = @toks[@i]) && Analysis::Token.new(*t)
end
class RubyAnalyzer
  def initialize(gap) = @gap = gap
  def token_stream(_field, text) = RubyTokenStream.new(text, @gap)
end

class BindingMachine
  FIELDS = %i[f0 f1 f2 f3]
  def initialize(c)
    @c = c; @s = c.s; @uid = 0; @reads = 0; @n = 1 + @s.geo(2, 35); @big = @s.chance(1, 250)
    @an = @s.weighted([5, 2, 2]); @decl = {}
    @decl[:uid] = { :store => :yes, :index => :untokenized, :term_vector => :no }
    FIELDS.each { |f| @decl[f] = rand_decl if @s.chance(3, 4) }
    @default = @s.draw(2) == 0 ? { :store => :yes, :index => :yes, :term_vector => :with_positions_offsets } : rand_decl.reject { |k, _| k == :boost }
    (FIELDS - @decl.keys).each { |f| @decl[f] = @default }
    @explicit = FIELDS.select { |f| !@decl[f].equal?(@default) }
    c.t "analyzer #{%w[whitespace Ruby Ruby-with-gaps][@an]}; defaults #{@default}; #{@explicit.map { |f| "#{f}:#{@decl[f]}" }.join(' ')}"
    @dirs = Array.new(@n) { |k| { :docs => [], :fs => @s.chance(1, 4), :path => "#{c.dir}/d#{k}", :dirty => false } }
    @dirs.each { |d| build(d) }
  end
  def rand_decl
    i = @s.pick(%i[yes untokenized omit_norms untokenized_omit_norms no])
    r = { :store => @s.pick(%i[yes no compressed]), :index => i, :term_vector => i == :no ? :no : @s.pick(%i[no yes with_positions with_offsets with_positions_offsets]) }
    r
  end
  def analyzer = @an == 0 ? Analysis::WhiteSpaceAnalyzer.new(false) : RubyAnalyzer.new(@an == 2)
  def fis
    f = Index::FieldInfos.new(@default)
    f.add_field(:uid, @decl[:uid])
    @explicit.each { |n| @s.draw(2) == 0 ? f.add_field(n, @decl[n]) : f.add(Index::FieldInfo.new(n, @decl[n])) }
    f
  end
  # ---- documents: { field => [values] }
  def value = @big && @s.chance(1, 8) ? (@s.draw(2) == 0 ? Array.new(2000 + @s.draw(3000)) { |i| "big#{i}" } : ["ant"] * (9000 + @s.draw(30000))).join(' ') : small_value
  def small_value = @s.chance(1, 10) ? (@s.draw(3) == 0 ? "" : @s.draw(2) == 0 ? @s.draw(3000) : "tab\there\nand") : Array.new(1 + @s.geo(8, 70)) { @s.pick(R_WORDS) }.join(' ' * (1 + (@s.chance(1, 6) ? 1 : 0)))
  def gen_doc
    d = { :uid => [(@uid += 1).to_s] }
    FIELDS.each { |f| d[f] = Array.new(1 + (@s.chance(1, 4) ? @s.draw(3) : 0)) { indexed?(f) || !@s.chance(1, 3) ? value : @s.pick(["a\0b", "\0", "\0\0x", "x\0", "\xff\0\x01"]) } if @s.chance(2, 3) }
    input = {}
    d.each do |f, vs|
      v = vs.size == 1 && @s.draw(3) > 0 ? vs[0] : vs
      v = Field.new(v.is_a?(Array) ? v : v.to_s, 2.0) if @s.chance(1, 10)
      v = v.intern if v.is_a?(String) && @s.chance(1, 12) && !v.include?("\0")
      input[@s.draw(4) == 0 ? f.to_s : f] = v
    end
    if @s.chance(1, 8) then x = Document.new(@s.pick([1.0, 3.0])); input.each { |k, v| x[k] = v }; input = x end
    [d.transform_values { |v| v.map { |x| x.to_s.b } }, input]
  end
  def stored?(f) = @decl[f][:store] != :no
  def indexed?(f) = @decl[f][:index] != :no
  def tokenized?(f) = %i[yes omit_norms].include?(@decl[f][:index])
  # [[term, position, start, end]..] of a field
  def toks(d, f)
    return [] unless indexed?(f)
    pos = -1; base = 0; r = []
    (d[f] || []).each do |v|
      if tokenized?(f)
        i = 0; v.scan(/[^ \t\n]+/n) { m = Regexp.last_match; pos += @an == 2 && i > 0 && i % 3 == 0 ? 2 : 1; i += 1; r << [m[0], pos, base + m.begin(0), base + m.end(0)] }
      else r << [v[0, 254], pos += 1, base, base + v.size] end
      base += v.size + 1
    end
    r
  end
  def build(d)
    d[:dir] = if d[:fs] then FileUtils.mkdir_p(d[:path]); Store::FSDirectory.new(d[:path], true) else Store::RAMDirectory.new end
    o = { :dir => d[:dir], :create => true, :field_infos => fis, :analyzer => analyzer, :max_buffered_docs => @s.pick([2, 3, 10, 10000]), :merge_factor => @s.pick([2, 3, 10]), :use_compound_file => @s.draw(2) == 0, :doc_skip_interval => @s.pick([2, 3, 16]), :term_index_interval => @s.pick([1, 2, 128]) }
    o[:max_field_length] = 100_000 if @big
    @c.t "directory #{@dirs.index(d)} #{d[:fs] ? 'disk' : 'RAM'} #{o.reject { |k, _| %i[dir create field_infos analyzer].include?(k) }}"
    w = Index::IndexWriter.new(o); live = []
    cmp("writer option", o.slice(:max_buffered_docs, :merge_factor, :doc_skip_interval, :term_index_interval).map { |k, v| [k, w.send(k)] }, o.slice(:max_buffered_docs, :merge_factor, :doc_skip_interval, :term_index_interval).to_a)
    (1 + @s.geo(12, 85)).times do
      case @s.weighted([10, 1, 1, 1, 1])
      when 0 then doc, input = gen_doc; @c.t "  add #{input.map { |k, v| "#{k.inspect}=>#{v.inspect[0, 50]}" }.join(' ')}"; w << input; live << doc
      when 1
        next if live.empty?
        u = Array.new(1 + @s.draw(2)) { live[@s.draw(live.size)][:uid][0] }; @c.t "  delete #{u}"
        u.size == 1 ? w.delete(:uid, u[0]) : w.delete(:uid, u); live.reject! { |x| u.include?(x[:uid][0]) }; d[:dirty] = true
      when 2 then @c.t "  commit"; w.commit
      when 3 then @c.t "  optimize"; w.optimize; d[:dirty] = false
      else cmp("doc_count bound", w.doc_count >= live.size, true); cmp("doc_count", w.doc_count, live.size) unless d[:dirty]
      end
    end
    w.close; d[:docs] = live
  end
  # ---- reader
  def cmp(what, got, exp) = @c.check(got == exp, what) { "#{what}: got #{got.inspect[0, 300]}, expected #{exp.inspect[0, 300]}" }
  def open_reader
    if @n > 1 && @s.chance(2, 3)
      @c.t "reader over #{@n} directories"; @multi = true; @docs = @dirs.flat_map { |d| d[:docs] }; @dirty = @dirs.any? { |d| d[:dirty] }
      a = @dirs.map { |d| r = @s.draw(3); r == 0 ? Index::IndexReader.new(d[:dir]) : r == 1 && d[:fs] ? d[:path] : d[:dir] }
      @r = Index::IndexReader.new(a)
    else
      d = @dirs[@s.draw(@n)]; @c.t "reader of directory #{@dirs.index(d)}"; @multi = false; @docs = d[:docs].dup; @dirty = d[:dirty]; @cur = d
      @r = Index::IndexReader.new(d[:fs] && @s.draw(2) == 0 ? d[:path] : d[:dir])
    end
    map_docs
  end
  def map_docs
    @num = {}.compare_by_identity; @table = {}
    live = (0...@r.max_doc).reject { |n| @r.deleted?(n) }
    cmp("number of documents", @r.num_docs, @docs.size); cmp("number of undeleted documents", live.size, @docs.size)
    live.each_with_index { |n, k| cmp("order of documents", @r[n][:uid], @docs[k][:uid][0]); @num[@docs[k]] = n }
    @c.check(!(@r.has_deletions?) || @dirty, "has_deletions", "has_deletions? without a deletion")
    cmp("max_doc", @r.max_doc, @docs.size) unless @dirty
  end
  def flds = FIELDS.select { |f| @docs.any? { |d| d[f] } || @explicit.include?(f) } # fields the index knows
  def known?(f) = @r.fields.include?(f)
  def plain(d) = d.select { |f, _| stored?(f) }.transform_values { |v| v.size == 1 ? v[0] : v }
  def bin(x) = x.is_a?(Array) ? x.map(&:b) : x&.b
  def ldoc(l) = l.load.to_h { |k, v| [k, bin(v)] }
  def field = @s.pick(FIELDS)
  def a_field = (f = field; indexed?(f) ? f : :uid)
  def table(f)                                   # term => [[document, positions]..]
    @table[f] ||= {}.tap { |h| @docs.each { |d| toks(d, f).group_by(&:first).each { |t, l| (h[t] ||= []) << [@num[d], l.map { |x| x[1] }] } } }
  end
  def terms_of(f) = table(f).keys.sort
  def some_term(f) = (t = terms_of(f); t.empty? || @s.chance(1, 6) ? "zzz" : @s.pick(t))
  def postings(f, t) = table(f)[t] || []
  def read
    @reads += 1
    case @s.weighted([4] * 13 + [1])
    when 13
      return if @multi || @dirty || @docs.empty?
      @c.t "enumerators and documents that outlive their reader"; f = a_field; return unless known?(f)
      d = @s.pick(@docs); n = @num[d]; t = some_term(f); q = t.dup.force_encoding('UTF-8'); dir = @cur[:dir]
      te, e, p, l = Thread.new { r = Index::IndexReader.new(dir); [r.terms(f), r.term_docs, r.term_positions, r[n]] }.value
      GC.start
      got = []; te.each { |x, c| got << [x.b, c] }; cmp("terms of #{f} after the reader was dropped", got, terms_of(f).map { |x| [x, postings(f, x).size] })
      e.seek(f, q); got = []; e.each { |a, b| got << [a, b] }; cmp("documents of #{f}:#{t} after the reader was dropped", got, postings(f, t).map { |a, b| [a, b.size] })
      p.seek(f, q); got = []; while p.next? do a = []; p.each_position { |x| a << x }; got << [p.doc, a] end; cmp("positions of #{f}:#{t} after the reader was dropped", got, postings(f, t))
      cmp("document #{n} after the reader was dropped", ldoc(l), plain(d))
    when 12
      f = @s.pick([:nope, "nope"]); @c.t "reads of a field the index does not have"
      cmp("doc_freq of an unknown field", @r.doc_freq(f, "ant"), 0); cmp("term_count of an unknown field", @r.term_count(f), 0)
      te = @r.terms(f); cmp("terms of an unknown field", te && te.next?, nil); te = @r.terms_from(f, "a"); cmp("terms_from an unknown field", te && te.next?, nil)
      e = @s.draw(2) == 0 ? @r.term_docs_for(f, "ant") : @r.term_positions_for(f, "ant"); cmp("postings of an unknown field", e.next?, false)
      x = @r.norms(f); cmp("norms of an unknown field", x.nil? || x.bytesize == @r.max_doc, true)
      cmp("term vector of an unknown field", @r.term_vector(@num[@docs[0]], f), nil) unless @docs.empty?
    when 0
      return if @docs.empty?
      d = @s.pick(@docs); n = @num[d]; k = @s.draw(3); k = 0 if k == 1 && n - @r.max_doc >= 0
      @c.t "document #{n} (#{%w[[] negative get_document][k]})"
      l = k == 0 ? @r[n] : k == 1 ? @r[n - @r.max_doc] : @r.get_document(n)
      cmp("fields of document #{n}", l.fields.sort, plain(d).keys.sort)
      f = @s.pick(FIELDS + [:nope]); cmp("lazy field #{f} of document #{n}", bin(l[f]), plain(d)[f])
      cmp("document #{n}", ldoc(l), plain(d))
    when 1
      n = @r.max_doc; return if @r.has_deletions? || n == 0
      a = @s.draw(n); len = 1 + @s.draw(n); w = (@docs[a, len] || []).map { |d| plain(d) }
      @c.t "documents #{a}, #{len}"
      got = case @s.draw(3) when 0 then @r[a, len] when 1 then @r[a..(a + len - 1)] else @r[a...(a + len)] end
      cmp("documents #{a}, #{len}", got.map { |l| ldoc(l) }, w)
    when 2
      f = a_field; return unless known?(f)
      t = some_term(f); @c.t "doc_freq #{f}:#{t}"; df = @r.doc_freq(f, t); p = postings(f, t).size
      @dirty ? @c.check(df >= p, "doc_freq", "doc_freq of #{f}:#{t} is #{df}, but #{p} documents have it") : cmp("doc_freq of #{f}:#{t}", df, p)
    when 3
      f = a_field; return unless known?(f)
      @c.t "terms of #{f}"; te = @s.draw(2) == 0 ? @r.terms(f) : (x = @r.terms(a_field2); x && x.set_field(f)); got = []
      cmp("terms is nil", te.nil?, false)
      if @s.draw(2) == 0 then cnt = te.each { |t, n| got << [t.b, n] }; cmp("number of terms of #{f}", cnt, got.size)
      else while (t = te.next?) do cmp("term", te.term, t) if @s.chance(1, 3); got << [t.b, te.doc_freq] end end
      w = terms_of(f)
      if @dirty then @c.check((w - got.map(&:first)).empty?, "terms", "terms of #{f}: got #{got.inspect}, expected at least #{w}"); cmp("order of terms", got.map(&:first), got.map(&:first).uniq.sort)
      else cmp("terms of #{f}", got, w.map { |t| [t, postings(f, t).size] }); cmp("term_count", @r.term_count(f), w.size) end
    when 4
      f = a_field; return if !known?(f) || @dirty
      w = terms_of(f); from = @s.chance(1, 3) ? some_term(f)[0, 1 + @s.draw(2)] : some_term(f); @c.t "terms of #{f} from #{from.inspect}"; from = from.dup.force_encoding('UTF-8')
      rest = w.select { |t| t >= from.b }
      te = @r.terms_from(f, from); return if te.nil?
      cmp("first term of #{f} from #{from}", te.term&.b, rest[0]) unless rest.empty?
      return if rest.empty?
      got = [te.term.b]; @s.draw(4).times { t = te.next?; break unless t; got << t.b }
      cmp("terms of #{f} from #{from}", got, rest[0, got.size])
      x = some_term(f); @c.t "  skip_to #{x}"; t = te.skip_to(x.dup.force_encoding('UTF-8')); cmp("skip_to #{x} in #{f}", t&.b, w.find { |y| y >= x.b })
      cmp("doc_freq after skip_to", te.doc_freq, postings(f, t.b).size) if t
    when 5
      f = a_field; return if !known?(f) || @dirty
      fast = @s.draw(2) == 0; @c.t "terms of #{f} as JSON#{' fast' if fast}"
      # quotation marks come out as '"' and everything else as it is (tc_index.rb asks for that)
      w = terms_of(f).map { |t| u = '"' + t.gsub('"', %q('"')) + '"'; n = postings(f, t).size; fast ? "[#{u},#{n}]" : "{\"term\":#{u},\"frequency\":#{n}}" }
      j = @r.terms(f).then { |te| fast ? te.to_json(:fast) : te.to_json }.b
      cmp("terms of #{f} as JSON", j, "[#{w.join(',')}]".b)
    when 6, 7
      f = a_field; return unless known?(f)
      t = some_term(f); w = postings(f, t); posn = @s.draw(2) == 1; q = t.dup.force_encoding('UTF-8')
      @c.t "#{posn ? 'term_positions' : 'term_docs'} #{f}:#{t}"
      e = case @s.draw(3)
          when 0 then posn ? @r.term_positions_for(f, q) : @r.term_docs_for(f, q)
          when 1 then (posn ? @r.term_positions : @r.term_docs).tap { |x| x.seek(a_field2, some_term(:uid)); x.next? if @s.draw(2) == 0; x.seek(f, q) }
          else te = @r.terms(f); while (y = te.next?) && y.b < t do end
            return if y.nil? || y.b != t
            (posn ? @r.term_positions : @r.term_docs).tap { |x| x.seek_term_enum(te) } end
      case @s.draw(4)
      when 0
        got = []; cnt = e.each { |d, fr| got << [d, fr] }
        cmp("documents of #{f}:#{t}", got, w.map { |d, p| [d, p.size] }); cmp("count of #{f}:#{t}", cnt, w.size)
      when 1
        got = []
        while e.next?
          p = []; if posn then @s.draw(2) == 0 ? e.each_position { |x| p << x } : (while (x = e.next_position) do p << x end) end
          got << [e.doc, e.freq, posn ? p : nil]
        end
        cmp("postings of #{f}:#{t}", got, w.map { |d, p| [d, p.size, posn ? p : nil] })
      when 2
        k = 0
        while true
          if @s.draw(2) == 0 then ok = e.next?; nxt = w[k]
          else g = @s.draw(@r.max_doc + 1); k0 = k; k += 1 while k < w.size && w[k][0] < g; nxt = w[k]; ok = e.skip_to(g) end
          cmp("more documents of #{f}:#{t}", ok, !nxt.nil?); break unless nxt
          cmp("document of #{f}:#{t}", [e.doc, e.freq], [nxt[0], nxt[1].size])
          if posn && @s.draw(2) == 0 then m = @s.draw(nxt[1].size + 1); cmp("positions of #{f}:#{t}", Array.new(m) { e.next_position }, nxt[1][0, m]) end
          k += 1
        end
      else
        fast = @s.draw(2) == 0
        j = JSON.parse(fast ? e.to_json(:fast) : e.to_json)
        cmp("JSON of #{f}:#{t}", j, w.map { |d, p| fast ? (posn ? [d, p.size, p] : [d, p.size]) : { "document" => d, "frequency" => p.size }.merge(posn ? { "positions" => p } : {}) })
      end
    when 8
      return if @docs.empty?
      d = @s.pick(@docs); f = field; return unless known?(f)
      @c.t "term vector #{f} of #{@num[d]}"; tv = @r.term_vector(@num[d], f)
      check_tv(tv, d, f)
    when 9
      return if @docs.empty?
      d = @s.pick(@docs); @c.t "term vectors of #{@num[d]}"; tvs = @r.term_vectors(@num[d])
      w = FIELDS.select { |f| @decl[f][:term_vector] != :no && !toks(d, f).empty? }
      cmp("fields with term vectors", tvs.select { |_, v| !v.terms.empty? }.keys.sort_by(&:to_s), w)
      w.each { |f| check_tv(tvs[f], d, f) }
    when 10
      @c.t "field definitions"; fi = @r.field_infos
      cmp("fields", @r.fields.sort, fi.to_a.map(&:name).sort); cmp("number of fields", fi.size, @r.fields.size)
      cmp("field_names", @r.field_names, @r.fields) if @r.respond_to?(:field_names)
      cmp("tokenized fields", @r.tokenized_fields.sort, (@r.fields & FIELDS).select { |f| tokenized?(f) }.sort)
      (@explicit + [:uid]).each { |f| @c.check(known?(f), "fields", "declared field #{f} is missing from #{@r.fields}") } unless @multi
      (@r.fields & FIELDS).each do |f|
        x = fi[f]; d = @decl[f]; tv = d[:term_vector]
        cmp("declaration of #{f}", [x.name, x.stored?, x.compressed?, x.indexed?, x.tokenized?, x.omit_norms?, x.store_term_vector?, x.store_positions?, x.store_offsets?],
            [f, d[:store] != :no, d[:store] == :compressed, indexed?(f), tokenized?(f), d[:index].to_s.end_with?("omit_norms") ? true : indexed?(f) ? false : x.omit_norms?, tv != :no, %i[with_positions with_positions_offsets].include?(tv), %i[with_offsets with_positions_offsets].include?(tv)])
      end
    else
      f = a_field; return if !known?(f)
      @c.t "norms of #{f}"; ns = @r.norms(f)
      if @decl[f][:index].to_s.end_with?("omit_norms") || !indexed?(f) then return end
      cmp("number of norms", ns.bytesize, @r.max_doc)
      off = @s.draw(3); b = "\x07".b * (off + @r.max_doc + 2); @r.get_norms_into(f, b, off)
      cmp("get_norms_into", b, "\x07".b * off + ns.b + "\x07".b * 2)
      if @r.max_doc > 0 && @s.draw(2) == 0 && !@docs.empty?
        d = @s.pick(@docs); return if toks(d, f).empty?
        v = @s.draw(256); n = @num[d]; @c.t "  set_norm #{n} #{v}"; @r.set_norm(n, f, v.chr); w = ns.b; w.setbyte(n, v); cmp("norms after set_norm", @r.norms(f).b, w)
        @c.check(@r.latest?, "latest", "an unmodified index is not the latest") unless @multi
      end
    end
  end
  def a_field2 = :uid
  def check_tv(tv, d, f)
    decl = @decl[f][:term_vector]; t = toks(d, f)
    if decl == :no || t.empty? then @c.check(tv.nil? || tv.terms.empty?, "term vector", "unexpected term vector #{tv.inspect}"); return end
    @c.check(tv, "term vector", "no term vector of #{f} in document #{@num[d]}")
    pos = %i[with_positions with_positions_offsets].include?(decl); off = %i[with_offsets with_positions_offsets].include?(decl)
    cmp("field of the term vector", tv.field, f)
    by = t.group_by(&:first).sort
    cmp("terms of the vector of #{f}", tv.terms.map { |x| [x.text.b, x.freq, x.positions] }, by.map { |w, l| [w, l.size, pos ? l.map { |x| x[1] } : nil] })
    cmp("offsets of the vector of #{f}", tv.offsets&.map { |o| [o.start, o.end] }&.reject { |a, b| a == 0 && b == 0 }, off ? t.map { |x| [x[2], x[3]] }.reject { |a, b| a == 0 && b == 0 } : nil) unless off && @an == 2
  end
  def run
    (1 + @s.draw(3)).times do
      open_reader
      (3 + @s.draw(10)).times { read; if @s.chance(1, 12) && !@docs.empty? then
          d = @s.pick(@docs); cur = @multi ? @dirs.find { |x| x[:docs].any? { |y| y.equal?(d) } } : @cur; cur[:docs].delete_if { |x| x.equal?(d) } if @multi; @c.t "delete #{@num[d]}"; @r.delete(@num[d]); cmp("deleted?", @r.deleted?(@num[d]), true); @docs.delete_if { |x| x.equal?(d) }; @dirty = cur[:dirty] = true
          cmp("has_deletions?", @r.has_deletions?, true); map_docs
        end }
      GC.start if @s.chance(1, 20)
      @cur[:docs] = @docs.dup if !@multi         # closing commits
      @c.t "close"; @r.close
    end
    @c.nontrivial = @dirs.sum { |d| d[:docs].size } >= 2 && @reads >= 8
    @c.label("multi") if @n > 1; @c.label("Ruby analyzer") if @an > 0
  end
end
P29 = ->(c) { BindingMachine.new(c).run }
