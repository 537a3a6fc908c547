# main.rb <directory with lib/ and ext/> [engine arguments]
lib = ARGV.shift
$:.unshift File.join(lib, 'lib'), File.join(lib, 'ext'), __dir__
require 'compat'
require 'ferret'
require 'engine'
require 'p27'
require 'p26'
require 'p29'
require 'p30'
require 'p31'
props = {
  'P26' => { run: P26, quick: 20000, thorough: 1500000, rule: P26_RULE },
  'P29' => { run: P29, quick: 25000, thorough: 1000000, rule: P29_RULE },
  'P30' => { run: P30, quick: 10000, thorough: 800000, rule: P30_RULE },
  'P31' => { run: P31, quick: 12000, thorough: 800000, rule: P31_RULE },
  'P27' => { run: P27, quick: 300000, thorough: 5000000, rule: "pairs of integers (up to 9999 digits, powers of ten and their neighbours, negative mirrors), times, dates and date-times at every precision in several time zones: order and inverse of the encodings; range queries over a field holding the encodings of a set of integers vs. the numeric interval; non-trivial: two different values, or a range selecting some but not all" },
}
Engine.new(props).main
