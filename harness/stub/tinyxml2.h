// Stand-in for the part of tinyxml2 used by the library, with attribute values read as symbolic numbers
// (symbolic side only; the replays use the real library).
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <cstring>
namespace tinyxml2 {
enum XMLError { XML_SUCCESS=0, XML_NO_ATTRIBUTE, XML_WRONG_ATTRIBUTE_TYPE, XML_ERROR_PARSING };
class XMLElement;
class XMLVisitor { public: virtual ~XMLVisitor() {} virtual bool VisitExit( const XMLElement& ) { return true; } };
class XMLAttribute
{
	friend class XMLElement; friend class XMLDocument;
	std::string n,v; const XMLAttribute* next=nullptr;
public:
	const char* Name() const { return n.c_str(); }
	const char* Value() const { return v.c_str(); }
	const XMLAttribute* Next() const { return next; }
};
class XMLElement
{
	friend class XMLDocument;
	std::string n; std::vector<std::unique_ptr<XMLAttribute>> at; std::vector<std::unique_ptr<XMLElement>> ch;
public:
	const char* Name() const { return n.c_str(); }
	const char* Attribute( const char* s ) const { for( auto& a:at ) if( a->n==s ) return a->v.c_str(); return nullptr; }
	const XMLAttribute* FirstAttribute() const { return at.empty()? nullptr : at[0].get(); }
	XMLError QueryDoubleAttribute( const char* s, symx::Num* out ) const
	{
		const char* v=Attribute(s); if( !v ) return XML_NO_ATTRIBUTE;
		try { *out=symx::h2d_stod(v); } catch( const std::exception& ) { return XML_WRONG_ATTRIBUTE_TYPE; }
		return XML_SUCCESS;
	}
	bool Accept( XMLVisitor* v ) const { for( auto& c:ch ) if( !c->Accept(v) ) break; return v->VisitExit(*this); }
};
class XMLDocument
{
	std::unique_ptr<XMLElement> root;
public:
	XMLError Parse( const char* s )
	{
		std::vector<XMLElement*> st; const char* p=s;
		while( (p=strchr(p,'<')) )
		{
			p++;
			if( *p=='/' ) { if( st.empty() ) return XML_ERROR_PARSING; st.pop_back(); continue; }
			auto e=std::make_unique<XMLElement>(); XMLElement* q=e.get();
			while( *p && !strchr(" \n/>",*p) ) q->n+=*p++;
			for(;;)
			{
				while( *p==' ' || *p=='\n' ) p++;
				if( !*p ) return XML_ERROR_PARSING;
				if( *p=='/' || *p=='>' ) break;
				auto a=std::make_unique<XMLAttribute>(); while( *p && *p!='=' && *p!=' ' ) a->n+=*p++;
				if( *p!='=' ) return XML_ERROR_PARSING;
				char d=*++p; if( d!='"' && d!='\'' ) return XML_ERROR_PARSING;
				p++; while( *p && *p!=d ) a->v+=*p++;
				if( !*p ) return XML_ERROR_PARSING;
				p++;
				if( !q->at.empty() ) q->at.back()->next=a.get();
				q->at.push_back( std::move(a) );
			}
			bool leaf= *p=='/';
			if( st.empty() ) { if( root ) return XML_ERROR_PARSING; root=std::move(e); } else st.back()->ch.push_back( std::move(e) );
			if( !leaf ) st.push_back(q);
		}
		return st.empty() && root ? XML_SUCCESS : XML_ERROR_PARSING;
	}
	const XMLElement* RootElement() const { return root.get(); }
	bool Accept( XMLVisitor* v ) const { return root? root->Accept(v) : true; }
};
}
