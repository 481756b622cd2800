"""Per property: whether the obligations cover the whole statement, and what they leave to the bounded stand-in."""
COVER = {
 'C04': (True, 'whole statement, for at most 2^31-1 tokens'),
 'C07': (True, 'whole statement, for well-formed logits'),
 'C08': (True, 'whole statement, for well-formed logits'),
 'C09': (True, 'whole statement, for well-formed logits'),
 'C16': (True, 'whole statement'),
}
for i in range(1, 24): COVER.setdefault('C%02d' % i, (False, 'contracts under construction'))
