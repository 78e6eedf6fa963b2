"""Record what the two shipped forms of the library look like on the unchanged
tree, so that a check knows which of them a change touched."""
import json
import os

import build

with open(os.path.join(build.VERIF, 'lib', 'targets.json'), 'w') as f:
    json.dump({'include': build.include_hash(), 'single': build.single_hash(), 'literals': build.literals(raw=True)}, f, indent=1)
    f.write('\n')
