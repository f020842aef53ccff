#!/bin/bash
# newseed.sh <seed-id> : prepares /verif/seeded/<seed-id> with the demonstration helpers; demo.py comes from stdin
d=/verif/seeded/$1; mkdir -p "$d"
cp /verif/tools/demolib.py /verif/lib/skeletons.json "$d/"
cat > "$d/demo.py"
printf '#!/bin/bash\nexec /usr/bin/python3 "$(dirname "$0")/demo.py"\n' > "$d/demo.sh"
printf '{"property": "%s", "needs": "%s", "what_it_breaks": "%s"}\n' "$2" "$3" "$4" > "$d/meta.json"
