use Unicode::UCD qw(charprop charblock prop_invmap);
mkdir "/tmp/w/perl";
for my $p (qw(gcb wb sb dt bidi_m emoji epres emod ebase ecomp blk age extpict hst jt ccc nfc_qc gc nfd_qc nfkc_qc comp_ex in)) {
  my ($l,$m,$f,$d)=prop_invmap($p);
  next unless defined $l;
  open my $h,">","/tmp/w/perl/$p.txt";
  for my $i (0..$#$l){ my $e = $i<$#$l ? $l->[$i+1]-1 : 0x10ffff; next if $l->[$i]>0x10ffff; printf $h "%X..%X\t%s\n",$l->[$i],$e,$m->[$i]; }
}
