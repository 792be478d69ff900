from contracts import views
CONTRACTS = views.CONTRACTS
