# Writes harness/ucd15.inc: {first, category index, property bits, simple case folding delta} runs, from Perl's own copy of the UCD.
use strict; use warnings; no warnings;
use Unicode::UCD qw(charprop casefold prop_invmap);
die unless Unicode::UCD::UnicodeVersion() eq '15.0.0';
my @gc = qw(Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn);
my %gi; $gi{$gc[$_]} = $_ for 0..$#gc;
sub full { my ($p) = @_; my ($l,$m,$fmt,$def) = prop_invmap($p); return ($l,$m,$fmt); }
my @cols;
for my $p ('General_Category') {
  my ($l,$m,$f) = full($p); my @v;
  for my $i (0..$#$l) { my $e = $i<$#$l ? $l->[$i+1] : 0x110000; for my $c ($l->[$i]..$e-1) { $v[$c] = $m->[$i]; } }
  push @cols, \@v;
}
my @bits;
my @bp = qw(White_Space Lowercase Uppercase Alphabetic XID_Start XID_Continue Join_Control);
for my $k (0..$#bp) {
  my ($l,$m,$f) = full($bp[$k]);
  for my $i (0..$#$l) { next unless $m->[$i] eq 'Y'; my $e = $i<$#$l ? $l->[$i+1] : 0x110000; for my $c ($l->[$i]..$e-1) { $bits[$c] |= 1<<$k; } }
}
my @fold;
for my $c (0..0x1FFFF) { my $r = casefold($c); next unless $r; my $s = $r->{simple}; $fold[$c] = hex($s)-$c if $s ne ''; }
my ($pg,$pb,$pf) = ('',-1,'x');
my %long;
for my $c (0..0x10FFFF) {
  my $g = $cols[0][$c]; my $s = $gi{$g}; die "gc $g" unless defined $s;
  my $b = $bits[$c]//0; my $f = $fold[$c]//0;
  if ($s ne $pg || $b != $pb || $f ne $pf) { printf "{0x%X,%d,%d,%d},\n",$c,$s,$b,$f; ($pg,$pb,$pf)=($s,$b,$f); }
}
