// Empty stand-in: /repo names this git dependency (optional, never enabled here), which cannot be fetched offline.
