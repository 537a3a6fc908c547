# P27: lexicographic encodings
require 'ferret/number_tools'
PRECS = [:year, :month, :day, :hour, :minute, :second]
def gen_int(c)
  s = c.s
  case s.weighted([4, 3, 3, 1])
  when 0 then n = s.draw(2000)
  when 1 then n = 10**s.draw(25) + s.draw(3) - 1
  when 2 then n = s.draw(10**(1 + s.draw(30)))
  else n = 10**(s.pick([98, 99, 100, 999, 1000, 5000, 9998])) - s.draw(2)
  end
  s.draw(2) == 1 ? -n : n
end
def near(c, n) = (x = near1(c, n); x.abs < 10**9999 ? x : n)       # the format allows 9999 digits
def near1(c, n) = c.s.draw(3) == 0 ? n + c.s.draw(5) - 2 : c.s.draw(4) == 0 ? -n : c.s.draw(4) == 0 ? n * 10 : c.s.draw(4) == 0 ? n / 10 : gen_int(c)
def gen_time_parts(c)
  s = c.s; y = s.pick([1970, 2000, 1999, 2038, 2007, 1900, 9999, 1000]) + (s.draw(2) == 0 ? 0 : s.draw(40) - 20); y = y.clamp(1000, 9999)
  m = 1 + s.draw(12); d = 1 + s.draw(Date.new(y, m, -1).day)
  [y, m, d, s.draw(24), s.draw(60), s.draw(60)]
end
def other_time(c, p)
  q = gen_time_parts(c); n = c.s.draw(7); r = p[0, n] + q[n..]; r[2] = [r[2], Date.new(r[0], r[1], -1).day].min; r
end
P27 = lambda do |c|
  s = c.s
  ENV['TZ'] = s.pick(%w[UTC UTC America/New_York Asia/Kolkata])
  case s.draw(4)
  when 0, 1
    a = gen_int(c); b = near(c, a); la, lb = a.to_s_lex, b.to_s_lex; sh = ->(x) { x.to_s[0, 60] }
    c.t "integers #{sh[a]} #{sh[b]}"
    c.check(la.to_i_lex == a, "inverse") { "#{sh[a]}.to_s_lex.to_i_lex is #{sh[la.to_i_lex]}" }
    c.check((la <=> lb) == (a <=> b), "order") { "#{sh[a]} <=> #{sh[b]} is #{a <=> b}, but #{sh[la]} <=> #{sh[lb]} is #{la <=> lb}" }
    w = [a.abs, b.abs].map { |x| x.to_s.size }.max + s.draw(4)
    pa, pb = a.abs.to_s_pad(w), b.abs.to_s_pad(w)
    c.check(pa.size == w && pb.size == w && pa.to_i == a.abs && (pa <=> pb) == (a.abs <=> b.abs), "pad") { "padded to #{w}: #{sh[pa]} and #{sh[pb]}" }
    c.check(pa =~ /\A0*#{a.abs}\z/, "pad") { "#{sh[a.abs]} padded to #{w} is #{sh[pa]}" }
    c.nontrivial = a != b
  when 2
    pa = gen_time_parts(c); pb = other_time(c, pa); pr = s.draw(6); prec = PRECS[pr]
    c.t "times #{pa} #{pb} #{prec} TZ=#{ENV['TZ']}"
    kinds = [->(p) { Time.mktime(*p) }, ->(p) { DateTime.new(*p) }, ->(p) { Date.new(*p[0, 3]) }, ->(p) { Time.utc(*p) }]
    k = s.draw(4); kinds[k].then do |mk|
      prec = PRECS[pr = pr % 3] if k == 2
      a, b = mk[pa], mk[pb]
      fa = k == 2 ? pa[0, 3] : [a.year, a.month, a.day, a.hour, a.min, a.sec]; fb = k == 2 ? pb[0, 3] : [b.year, b.month, b.day, b.hour, b.min, b.sec]
      la, lb = a.to_s_lex(prec), b.to_s_lex(prec)
      c.check((la <=> lb) == (fa[0..pr] <=> fb[0..pr]), "order") { "#{a} <=> #{b} at #{prec}: #{la.inspect} <=> #{lb.inspect}" }
      t = la.to_time_lex
      want = fa[0..pr] + [0, 1, 1, 0, 0, 0][pr + 1..]
      back = Time.mktime(*want)
      c.check(t == back, "inverse") { "#{la.inspect}.to_time_lex is #{t}, expected #{back}" }
      if k == 2 && prec == :day
        c.check(la.to_date_lex == a, "inverse") { "#{la.inspect}.to_date_lex is #{la.to_date_lex}, expected #{a}" }
      end
      if k == 1 && prec == :second
        c.check(la.to_date_time_lex == a, "inverse") { "#{la.inspect}.to_date_time_lex is #{la.to_date_time_lex}, expected #{a}" }
      end
      c.check(a.to_s_lex == a.to_s_lex(:day), "default") { "default precision of #{a}" }
    end
    c.nontrivial = pa != pb
  else
    # range queries over the encodings select the numeric interval
    n = 1 + s.geo(12, 85); base = gen_int(c); base %= 10**200; nums = Array.new(n) { x = near(c, base); x.abs < 10**220 ? x : x % 1000 }
    fis = Ferret::Index::FieldInfos.new; fis.add_field(:n, :index => :untokenized); fis.add_field(:p, :index => :untokenized)
    dir = Ferret::Store::RAMDirectory.new
    w = Ferret::Index::IndexWriter.new(:dir => dir, :field_infos => fis)
    nums.each { |x| w << { :n => x.to_s_lex, :p => x.abs.to_s_pad(230) } }
    w.close
    sea = Ferret::Search::Searcher.new(dir)
    (1 + s.draw(3)).times do
      lo, hi = [s.draw(2) == 0 ? s.pick(nums) : near(c, base) % 10**200, s.draw(2) == 0 ? s.pick(nums) : near(c, base) % 10**200].minmax
      il, ih = s.draw(2) == 1, s.draw(2) == 1
      o = {}; o[il ? :>= : :>] = lo.to_s_lex unless s.chance(1, 6); o[ih ? :<= : :<] = hi.to_s_lex unless s.chance(1, 6) || (o.empty? && hi.nil?)
      o[:>=] = lo.to_s_lex if o.empty?
      want = nums.each_index.select { |i| (!o[:>=] || nums[i] >= lo) && (!o[:>] || nums[i] > lo) && (!o[:<=] || nums[i] <= hi) && (!o[:<] || nums[i] < hi) }
      got = []; sea.search_each(Ferret::Search::RangeQuery.new(:n, o), :limit => :all) { |d, _| got << d }
      c.t "range #{o.keys.inspect} #{lo.to_s[0, 30]} #{hi.to_s[0, 30]} over #{n} numbers: #{got.sort.inspect}"
      c.check(got.sort == want, "range") { "range #{o.inspect[0, 200]} gave #{got.sort.inspect}, expected #{want.inspect}" }
      c.nontrivial = true unless want.empty? || want.size == n
    end
    sea.close
  end
end
