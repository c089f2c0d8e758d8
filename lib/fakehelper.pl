#!/usr/bin/perl
# A native text helper whose treatment of each request is written in the request:
#   ...T<number>s<serve letter>o<one-shot letter>...   or a glyph number 4096 + 256*number + 16*s + o
# Every start is logged in $FAKE_LOG.
use strict; use warnings; use Time::HiRes qw(sleep);
my $mode = (@ARGV && $ARGV[0] eq "--serve") ? "serve" : "once"; my $log = $ENV{FAKE_LOG};
sub note { open(my $f, ">>", $log) or exit 3; syswrite($f, "$_[0]\n"); close $f; }
alarm 150; note("$mode $$"); binmode STDOUT; $SIG{PIPE} = "DEFAULT";
exit 2 if $mode eq "serve" && $ENV{FAKE_NOSERVE};
sub out { my $s = $_[0]; while (length $s) { my $n = syswrite(STDOUT, $s); exit 0 unless defined $n; substr($s, 0, $n, ""); } }
sub answer {
  my ($q, $id) = @_; my ($name) = $q =~ /"(?:name|family|postscriptName)":"([^"]*)"/; $name //= ""; my $fe = "F\xc3\xa9\xe6\xbc\xa2\xf0\x9f\x98\x80-$name";
  my $meta = qq({"type":"meta","unitsPerEm":1000,"ascent":$id,"descent":-200,"postscriptName":"$name","nameMatched":true,"traitBold":true,"traitItalic":true});
  return qq({"results":[{"type":"family","found":true,"path":"/f/$name","postscriptName":"PS-$name","familyName":"$fe"}]}) if $q =~ /"type":"family"/;
  return qq({"results":[{"type":"familyMatch","found":true,"path":"/f/$name","postscriptName":"PS-$name","family":"$fe","weight":400}]}) if $q =~ /"type":"familyMatch"/;
  if ($q =~ /"type":"(fallback|fcfallback)"/) { my $t = $1; my ($lang) = $q =~ /"lang":"([^"]*)"/; my $n = $t eq "fcfallback" ? $lang : $name; my ($c) = $q =~ /"cps":\[([\d,]*)\]/; return qq({"results":[{"type":"$t","fonts":[) . join(",", map { qq({"cp":$_,"found":true,"path":"/f/$n-$_","postscriptName":"PS-$n-$_","familyName":"$fe","family":"PS-$n-$_"}) } split /,/, $c) . "]}]}"; }
  if ($q =~ /"type":"shape"/) { my ($t) = $q =~ /"text":"([^"]*)"/; return qq({"results":[{"type":"shape","glyphs":[{"id":7,"ax":$id,"ay":0,"dx":0,"dy":0,"cluster":0,"d":""}]}]}); }
  my @r; while ($q =~ /\{"type":"(meta|glyphs)"(?:[^{}]|\{[^{}]*\})*\}/g) { my $part = $&; if ($1 eq "meta") { push @r, $meta; next; } my @g; while ($part =~ /\{"(?:cp|id)":(\d+)\}/g) { push @g, qq({"id":$1,"advance":$1,"d":"M0 0L1 1Z","bbox":{"x":0,"y":0,"w":1,"h":1}}); } push @r, qq({"type":"glyphs","glyphs":[) . join(",", @g) . "]}"; }
  return qq({"results":[) . join(",", @r) . "]}";
}
my @L = ("k", "b", "c", "h", "j", "w", "t", "n", "e", "r", "f", "g", "d", "p", "x", "v"); # 16 treatments
sub treat { my ($q, $m) = @_; return ($m eq "s" ? $2 : $3, $1) if $q =~ /T(\d+)s(\w)o(\w)/; if ($q =~ /"glyphs":\[\{"(?:cp|id)":(\d+)\}\]/ && $1 >= 4096) { my $v = $1 - 4096; return ($L[$m eq "s" ? int($v / 16) % 16 : $v % 16], $1); } return ("k", 500); }
my $buf = "";
sub request { while (1) { if ($mode eq "serve" && (my $i = index($buf, "\n")) >= 0) { my $q = substr($buf, 0, $i); $buf = substr($buf, $i + 1); return $q; } my $n = sysread(STDIN, my $chunk, 1 << 16); if (!$n) { my $q = $buf; $buf = ""; return ($mode eq "once" && length $q) ? $q : undef; } $buf .= $chunk; } }
my $HOLLOW = { n => "null", e => "{}", r => '{"results":[]}', g => '{"error":"bad font"}', v => '{"results":[null,null,null]}' };
while (defined(my $q = request())) {
  my ($t, $id) = treat($q, $mode eq "serve" ? "s" : "o"); my $a = answer($q, $id);
  if ($mode eq "once") { exit 1 if $t eq "c"; sleep 1000 if $t eq "w"; $a = substr($a, 0, int(length($a) / 2)) if $t eq "h"; $a = "oops" if $t eq "j"; if ($t eq "b") { out($a); exit 3; } }
  if ($t eq "c") { exit 1; } elsif ($t eq "h") { out(substr($a, 0, int(length($a) / 2))); exit 0; } elsif ($t eq "j") { out("{oops\n"); }
  elsif ($t eq "w") { sleep 1000; } elsif ($t eq "t") { out("$a\n$a\n"); } elsif ($HOLLOW->{$t}) { out("$HOLLOW->{$t}\n"); }
  elsif ($t eq "f") { out('{"results":[{"type":"fallback"},{"type":"meta"},{"type":"glyphs"}]}' . "\n"); }
  elsif ($t eq "d") { sleep 0.03; out("$a\n"); } elsif ($t eq "p") { my $i = index($a, "\xbc"); $i = 5 if $i < 0; out(substr($a, 0, $i)); sleep 0.03; out(substr($a, $i) . "\n"); }
  elsif ($t eq "x") { $a =~ s/^\{/"{\"pad\":\"" . ("\xe6\xbc\xa2" x 400000) . "\","/e; out("$a\n"); }
  else { out("$a\n"); exit 0 if $t eq "b"; }
  exit 0 if $mode eq "once";
}
