"""Builds the extractor once (every check builds what it needs by itself as well)."""
import facts
facts.tool()
print('extractor built')
